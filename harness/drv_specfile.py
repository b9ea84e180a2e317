"""Writes specification files, loads them, and looks things up, as SpecFile.tla describes."""
import os, tempfile, shutil
from base import *
from ade.specs import SpecsLoader, Specs

MODULE = 'SpecFile'


class File(object):
    """One file. Lines are abstract, and rendered in one of the ways that say the same."""
    def __init__(self, rng, directory):
        self.rng = rng
        self.path = os.path.join(directory, 'specs%d.txt' % rng.randrange(10))
        self.text = []
        self.ev = []

    #--- Rendering -------------------------------------------------------------

    def number(self, m, e):
        r = self.rng
        sign = '-' if m < 0 else r.choice(['', '', '+'])
        digits = str(abs(m))
        forms = []
        if e >= 0: forms.append(digits + '0'*e)
        if e >= 0: forms.append(digits + '0'*e + '.0')
        if e < 0:
            d = digits.rjust(-e+1, '0')
            forms.append(d[:e] + '.' + d[e:])
        forms.append(digits + r.choice('eE') + str(e))
        if e >= 0: forms.append(digits + 'e+%d' % e)
        if len(digits) > 1: forms.append(digits[0] + '.' + digits[1:] + r.choice('eE') + str(e + len(digits)-1))
        return sign + r.choice(forms)

    def token(self, x):
        r = self.rng
        if x['t'] == 'num': return self.number(x['m'], x['e'])
        if x['t'] in ('none', 'true', 'false'):
            return r.choice([x['t'], x['t'].capitalize(), x['t'].upper()])
        return ''.join(c.upper() if r.random() < 0.2 else c for c in x['x'])

    def key(self, k):
        if k['int']: return k['k'] if self.rng.random() < 0.8 else '0' + k['k']
        return "'%s'" % k['k'] if self.rng.random() < 0.1 else k['k']

    def render(self, e):
        r = self.rng
        gap = lambda: r.choice([' ', '  ', '\t', '      ', ' \t '])
        kind = e['kind']
        if kind == 'blank': return r.choice(['', '', '   ', '\t'])
        if kind == 'comment': return r.choice(['#', '# a 5', '   # -----', '#a = 7', '## x:y 3', '# params'])
        if kind == 'rule': text = '-'*r.choice([2, 5, 5, 40])
        elif kind == 'name': text = e['name']
        else:
            text = ':'.join(self.key(k) for k in e['path']) + gap()
            if r.random() < 0.4: text += '=' + gap()
            comma = r.random() < 0.4
            for k, x in enumerate(e['v']):
                if k: text += (',' if comma else '') + gap()
                text += self.token(x)
        if r.random() < 0.2: text = r.choice([' ', '   ', '\t']) + text
        if r.random() < 0.25: text += r.choice([' # comment', '  #', '# 5 6', '\t# -- x', ' # a = b # c'])
        if r.random() < 0.1: text += '  '
        return text

    def line(self, kind, **kw):
        e = dict(op='line', kind=kind, **kw)
        self.add(e)

    def add(self, e):
        e = dict(e)
        self.text.append(self.render(e))
        if 'path' in e:
            # The key as it is to be
            e['path'] = [dict(int=k['int'], k=str(int(k['k'])) if k['int'] else k['k']) for k in e['path']]
        self.ev.append(e)

    #--- Loading ----------------------------------------------------------------

    def keyOf(self, k):
        if isinstance(k, int) and not isinstance(k, bool): return dict(int=True, k=str(k))
        return dict(int=False, k=str(k))

    def tokenOf(self, x):
        if x is None: return dict(t='none', n=0, x='')
        if x is True: return dict(t='true', n=0, x='')
        if x is False: return dict(t='false', n=0, x='')
        if isinstance(x, (int, float)): return dict(t='num', n=toInt(x, 1000000), x='')
        return dict(t='str', n=0, x=str(x))

    def flat(self, obj, path=()):
        if isinstance(obj, dict):
            result = []
            for k in obj: result += self.flat(obj[k], path + (k,))
            return result
        many = isinstance(obj, (list, tuple))
        return [dict(path=[self.keyOf(k) for k in path],
                     v=dict(list=many, of=[self.tokenOf(x) for x in (obj if many else [obj])]))]

    def load(self):
        r = self.rng
        end = r.choice(['\n', '\n', '\r\n'])
        text = end.join(self.text)
        if text and r.random() < 0.8: text += end
        with open(self.path, 'w', newline='') as fh: fh.write(text)
        try:
            s = SpecsLoader(self.path)()
        except ValueError:
            self.ev.append(dict(op='error', proper=True))
            return
        except Exception as e:
            self.ev.append(dict(op='error', proper=False, what=excText(e)))
            return
        attrs = {k: v for k, v in vars(s).items() if k != 'ds'}
        self.ev.append(dict(op='loaded', all=self.flat(attrs), attrs=[self.keyOf(k) for k in attrs]))
        # Lookups, of what is there and of what is not
        found = []
        def walk(obj, path):
            if path: found.append(path)
            if isinstance(obj, dict):
                for k in obj: walk(obj[k], path + (k,))
        walk(attrs, ())
        r.shuffle(found)
        for path in found[:6]:
            self.get(s, path)
            self.get(s, path + (r.choice(['nope', 7, 'a']),))
            if len(path) > 1: self.get(s, path[:-1] + ('zz',))
        self.get(s, ('nope',))
        self.get(s, ('nope', 'a', 3))

    def get(self, s, path):
        self.ev.append(dict(op='get', path=[self.keyOf(k) for k in path], all=self.flat(s.get(*path))))

    def missing(self):
        try:
            SpecsLoader(self.path + '.not')()
            refused = False
        except OSError: refused = True
        self.ev.append(dict(op='missing', refused=refused))


WORDS = ['foo', 'bar', 'x', 'ab_c', 'v1', 'long-name', 'a.b', 'nonesuch', 'truer', '3x', '1e', 'e5', 'no']
NAMES = ['a', 'b', 'Rg', 'Vbatt', 'params', 'Ttrig_2', 'fooBar']

def someToken(rng):
    x = rng.random()
    if x < 0.55:
        e = rng.choice([0, 0, 0, 1, 2, -1, -2, -4, -5])
        m = rng.randint(-1900, 1900) // 10**max(0, e)
        return dict(t='num', m=m, e=e)
    if x < 0.75: return dict(t=rng.choice(['none', 'true', 'false']), x='')
    return dict(t='str', x=rng.choice(WORDS))

def someValue(rng):
    return [someToken(rng) for k in range(rng.choice([1, 1, 1, 2, 3, 5]))]

def N(n): return dict(int=False, k=n)

def randomLines(rng, f):
    def noise():
        while rng.random() < 0.25: f.line(rng.choice(['blank', 'comment']))
    for k in range(rng.choice([0, 1, 2, 4, 8])):
        noise()
        x = rng.random()
        if x < 0.5: f.line('entry', path=[N(rng.choice(NAMES))], v=someValue(rng))
        elif x < 0.53: f.line('rule')
        elif x < 0.56: f.line('entry', path=[N(rng.choice(NAMES)), N('k')], v=someValue(rng))
        else:
            f.line('name', name=rng.choice(NAMES))
            noise()
            f.line('rule')
            entries, used = rng.choice([1, 2, 4, 7]), []
            while entries:
                noise()
                path = []
                for j in range(rng.choice([1, 1, 2, 2, 3])):
                    path.append(N(rng.choice(NAMES)) if rng.random() < 0.6 else dict(int=True, k=str(rng.choice([1, 2, 351]))))
                if any(p != path and p == path[:len(p)] for p in used): continue
                used = [p for p in used if path != p[:len(path)]] + [path]
                f.line('entry', path=path, v=someValue(rng))
                entries -= 1
            noise()
            f.line('rule')
    noise()

def scenario(rng, directory, lines, tag):
    f = File(rng, directory)
    try:
        with watchdog(20):
            if lines is None: randomLines(rng, f)
            else:
                for e in lines: f.add(e)
            f.load()
            if rng.random() < 0.1: f.missing()
    except Hang:
        f.ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        f.ev.append(dict(op='exc', what=excText(e)))
    return {'cfg': dict(x=0), 'ev': f.ev, 'tag': tag, 'text': f.text}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    directory = tempfile.mkdtemp(prefix='specfile-')
    try:
        for k in range(n):
            if enough(): break
            if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), directory, None, 'random'))
        for k, b in enumerate(beh):
            if enough(): break
            if k % parts == part:
                lines = [e for e in b if e['kind'] != 'end']
                traces.append(scenario(random.Random(seed*100003 + k), directory, lines, 'behaviour'))
    finally: shutil.rmtree(directory, ignore_errors=True)
    return traces
