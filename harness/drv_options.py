"""Declares options, parses command lines and looks options up, as Options.tla describes."""
import io, contextlib
from base import *
from ade.args import Args

MODULE = 'Options'

LETTERS = 'abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
WORDS = 'speed twist bound of the model output names slow file many points rate per step run'.split()
TOKENS = [('3', 'int float str'), ('12', 'int float str'), ('2.5', 'float str'), ('-4', 'int float str'), ('-0.5', 'float str'),
          ('x', 'str'), ('word', 'str'), ('a/b.c', 'str'), ('0', 'int float str'), ('two words', 'str'), ('', 'str')]


def render(x):
    if x is None: return dict(t='none', v='None')
    if isinstance(x, bool): return dict(t='flag', v=str(x))
    if isinstance(x, float): return dict(t='float', v='%g' % x)
    return dict(t=type(x).__name__, v=str(x))


class Options(object):
    def __init__(self, rng, opts, rest):
        """Options are (letter, long name, type, default, help text)."""
        self.rng, self.opts, self.rest = rng, opts, rest
        self.cfg = dict(opts=[dict(t=t, d='%g' % d if t == 'float' else str(d)) for l, n, t, d, x in opts], rest=rest)
        self.ev = []
        self.paras = [self.text(rng.randint(4, 30)) for k in range(rng.randint(1, 3))]
        self.args = Args('\n\n'.join('\n    '.join(self.broken(p)) for p in self.paras) + rng.choice(['', '\n', '\n    ']))
        order = list(opts) + ([None] if rest else [])
        rng.shuffle(order)
        for o in order:
            if o is None: self.args('<what else> [more ...]')
            else:
                l, n, t, d, x = o
                if t == 'flag': self.args('-' + l, '--' + n, x)
                else: self.args('-' + l, '--' + n, d, x)

    def text(self, n):
        return ' '.join(self.rng.choice(WORDS) for k in range(n))

    def broken(self, text):
        words = text.split()
        k = self.rng.randint(1, len(words))
        return [' '.join(x) for x in (words[:k], words[k:]) if x]

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def guarded(self, f):
        """Whether it exited, and the result."""
        self.out = io.StringIO()
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(self.out): return False, f()
        except SystemExit: return True, None

    def line(self, items):
        argv = ['script']
        for x in items:
            if x['o'] == 0: argv.append(x['v'])
            else:
                l, n, t, d, h = self.opts[x['o']-1]
                if t == 'flag': argv.append(self.rng.choice(['-' + l, '--' + n]))
                else:
                    how = self.rng.choice(['short', 'long', 'eq', 'joined'])
                    if how == 'short': argv += ['-' + l, x['v']]
                    elif how == 'long': argv += ['--' + n, x['v']]
                    elif how == 'joined' and x['v']: argv.append('-' + l + x['v'])
                    else: argv.append('--' + n + '=' + x['v'])
        sys.argv = argv
        self.log('line', line=items)

    def get(self, o):
        letter = self.opts[o-1][0] if o else self.rng.choice([l for l in LETTERS if l not in [x[0] for x in self.opts]])
        exits, x = self.guarded(lambda: getattr(self.args, letter))
        self.log('get', o=o, exits=exits, got=render(x))

    def seq(self):
        def f():
            n = len(self.args)
            return list(self.args), n, bool(self.args), [self.args[k] for k in range(n)]
        exits, x = self.guarded(f)
        x = x or ([], 0, False, [])
        self.log('seq', exits=exits, got=[str(y) for y in x[0]], len=x[1], truth=x[2], items=[str(y) for y in x[3]])

    def run(self, main):
        called = []
        def f():
            called.append(1)
            return 'done'
        f.__module__ = '__main__' if main else 'other'
        exits, x = self.guarded(lambda: self.args(f))
        if not exits: self.log('run', main=main, called=bool(called), result=x == 'done')

    def help(self):
        was, sys.argv = sys.argv, ['script', self.rng.choice(['-h', '--help'])]
        exits, x = self.guarded(lambda: self.args.z)
        sys.argv = was
        text = self.out.getvalue()
        flat = ' '.join(text.split())
        texts, defaults = [], []
        for l, n, t, d, h in self.opts:
            texts.append(' '.join(h.replace('{}', l).split()) in flat and '--' + n in flat and '-' + l in flat)
            if t != 'flag' and 'default' not in h.lower():
                defaults.append(' '.join((h.replace('{}', l) + ' [%s]' % d).split()) in flat)
        k, last = 0, True
        at = [flat.find(p) for p in self.paras]
        split = flat.find('--help')
        paras = all(x >= 0 for x in at) and at[0] < split and all(split < x for x in at[1:]) \
                and all(flat.find(p, x) >= 0 for p, x in zip(self.paras, at))
        self.log('help', exits=exits, texts=texts, defaults=defaults, paras=paras)


def guarded(f, r, tag):
    was = sys.argv
    try:
        with watchdog(30): f()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        r.log('exc', what=excText(e))
    finally: sys.argv = was
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}

def someOptions(rng):
    opts = []
    for l in rng.sample(LETTERS, rng.choice([0, 1, 2, 3, 5, 9])):
        n = '%s-%s%s' % (rng.choice(WORDS), rng.choice(WORDS), l)
        t = rng.choice(['flag', 'int', 'float', 'str'])
        d = dict(flag='', int=rng.choice([0, 5, -1]), float=rng.choice([0.0, 1.5, -2.0]), str=rng.choice(['', 'abc', '5']))[t]
        h = ' '.join(rng.choice(WORDS) for k in range(rng.randint(1, 8)))
        if rng.random() < 0.15: h += ' (no default)'
        if t != 'flag' and rng.random() < 0.2: h += ' as {}'
        opts.append((l, n, t, d, h))
    return opts

def random1(seed):
    rng = random.Random(seed)
    opts = someOptions(rng)
    r = Options(rng, opts, rng.random() < 0.7)
    def items():
        L = []
        for k in range(rng.choice([0, 1, 2, 3, 6])):
            if not opts: break
            o = rng.randint(1, len(opts))
            t = opts[o-1][2]
            v, i = ('', '') if t == 'flag' else rng.choice(
                [x for x in TOKENS if t in x[1].split()] if rng.random() < 0.9 else TOKENS)
            L.append(dict(o=o, v=v, **{'is': i.split()}))
        n = rng.choice([0, 1, 3]) if r.rest or rng.random() < 0.1 else 0
        at = rng.randint(0, len(L))
        rest = [dict(o=0, v=v, **{'is': i.split()}) for v, i in [rng.choice(TOKENS) for k in range(n)]]
        return L[:at] + [x for x in rest if x['v'] and not x['v'].startswith('-')] + L[at:]
    def go():
        r.line(items())
        for k in range(rng.randint(2, 8)):
            what = rng.choice(['get', 'get', 'get', 'none', 'seq', 'line', 'run', 'other'])
            if what == 'get' and opts: r.get(rng.randint(1, len(opts)))
            elif what == 'none': r.get(0)
            elif what == 'seq': r.seq()
            elif what == 'line': r.line(items())
            elif what == 'run': r.run(True)
            elif what == 'other': r.run(False)
    def first():
        if rng.random() < 0.3 and 'z' not in [o[0] for o in opts]: r.help()
        go()
    return guarded(first, r, 'random')

def behaviour(seed, b):
    rng = random.Random(seed)
    r = Options(rng, [('n', 'number', 'int', 7, 'a number'), ('f', 'flag', 'flag', '', 'a flag'),
                      ('s', 'string', 'str', 'abc', 'some text')], True)
    def go():
        for e in b:
            if e['op'] == 'line': r.line(e['line'])
            elif e['op'] == 'get': r.get(e['o'])
            elif e['op'] == 'seq': r.seq()
    return guarded(go, r, 'behaviour')

def drive(fam, n, seed, beh, part=0, parts=1):
    os.environ['COLUMNS'] = '200'
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(random1(seed*100003 + k))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part: traces.append(behaviour(seed*100003 + k, b))
    return traces
