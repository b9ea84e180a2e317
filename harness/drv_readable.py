"""Has values and populations printed, as Readable.tla describes."""
import re
from base import *
from ade import abort
from ade.population import Population, ParameterManager
from ade.individual import Individual

MODULE = 'Readable'

NAMES = ['a', 'b', 'x1', 'x2', 'x10', 'Zeta', 'omega_long_name', 'k_d', 'alpha', 'q', 'r', 's', 't', 'Vmax', 'y0',
         'lambda1', 'lambda2', 'n', 'o', 'tau_of_the_slow_part']
TOKEN = re.compile(r'^<?([A-Za-z_0-9]+)=([^*>]+?)(\**)>?$')


class Readable(object):
    def __init__(self, rng, names, bounds):
        self.rng, self.names, self.bounds = rng, names, bounds
        self.ev = []
        order = sorted(range(len(names)), key=lambda k: names[k])
        self.cfg = dict(lo=[b[0] for b in bounds], hi=[b[1] for b in bounds], order=[k+1 for k in order])

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def token(self, x):
        """A printed name=value with stars, as parameter, value, stars; None if that is not what it is."""
        m = TOKEN.match(x)
        if not m or m.group(1) not in self.names: return None
        return self.parsed(self.names.index(m.group(1)), m.group(2), m.group(3))

    def parsed(self, k, text, stars):
        try: value = float(text)
        except ValueError: return None
        return dict(k=k+1, v=toInt(value), st=len(stars))

    def printed(self, text, skip=0):
        tokens = text.split()
        got = [self.token(x) for x in tokens[skip:]]
        return [x for x in got if x], None in got

    def some(self, beyond=False):
        v = []
        for lo, hi in self.bounds:
            w = hi - lo
            x = self.rng.choice([lo, hi, lo + w//20, hi - w//20, lo + w//20 + 1, hi - w//20 - 1,
                                 self.rng.randint(lo, hi), self.rng.randint(lo, hi)])
            v.append(min(hi, max(lo, x)))
        return v

    def values(self, pm, v, prelude=None):
        args = []
        if prelude == 'plain': args = ['Prelude']
        elif prelude == 'proto': args = ['Prelude{}', 7]
        text = pm.prettyValues(np.array(v, dtype=self.rng.choice(['f8', 'f4'])), *args)
        n = 1 if args else 0
        odd = bool(args) and text.split()[0] != {'plain': 'Prelude', 'proto': 'Prelude7'}[prelude]
        got, more = self.printed(text, n)
        self.log('values', v=v, got=got, odd=odd or more, wide=max(len(x) for x in text.split('\n')))

    def namer(self, pm, v):
        got = list(pm.sortedNamerator())
        only = list(pm.sortedNamerator(namesOnly=True))
        withv = [tuple(x) for x in pm.sortedNamerator(v)]
        agree = only == [n for k, n in got] and withv == [(k, n, v[k]) for k, n in got] \
                and all(self.names[k] == n for k, n in got)
        self.log('names', got=[int(k)+1 for k, n in got], agree=bool(agree))

    def unity(self, pm, v):
        to = pm.toUnity(np.array(v, dtype=float))
        back = pm.fromUnity(to)
        self.log('unity', v=v, to=[toInt(x*64) for x in to], back=[toInt(x) for x in back])

    def table(self, p, members):
        text = repr(p)
        lines = [x for x in text.split('\n')]
        e = dict(members=members, empty=False, odd=False, cols=[], n=0, top=0, min=0, max=0, best=dict(s=0, got=[]))
        m = re.match(r'Population: (\d+) individuals with SSE (\S+) to (\S+), .* Top (\d+):$', lines[0])
        if not members: e['empty'] = 'empty' in text
        elif not m: e['odd'] = True
        else:
            e.update(n=int(m.group(1)), min=toInt(float(m.group(2))), max=toInt(float(m.group(3))), top=int(m.group(4)))
            rows = [x.split('|') for x in lines if x.count('|') == 1]
            if not rows or rows[0][0].strip() != 'SSE': e['odd'] = True
            else:
                e['cols'] = [dict(s=toInt(float(x)), got=[]) for x in rows[0][1].split()]
                for name, text in rows[1:]:
                    name = name.strip()
                    for c, x in zip(e['cols'], text.split()):
                        x = self.parsed(self.names.index(name), x.rstrip('*'), '*'*x.count('*')) \
                            if name in self.names else None
                        if x: c['got'].append(x)
                        else: e['odd'] = True
            tail = ' '.join(lines)
            m = re.search(r'<SSE=([0-9.]+|inf) (.*?)>', tail)
            if not m: e['odd'] = True
            else:
                got, odd = self.printed(m.group(2))
                e['best'] = dict(s=toInt(float(m.group(1))), got=got)
                e['odd'] = e['odd'] or odd
        self.log('table', **e)

    def one(self, i, v, s):
        """An individual by itself."""
        text = repr(i)
        m = re.match(r'^<SSE=([0-9.]+|inf) (.*)>$', ' '.join(text.split('\n')))
        got, odd = self.printed(m.group(2)) if m else ([], True)
        if m and toInt(float(m.group(1))) != s: odd = True
        self.log('values', v=v, got=got, odd=odd, wide=max(len(x) for x in text.split('\n')) - 2)

    def population(self, Np):
        freshReactor()
        abort.restart()
        cls = type('P', (Population,), {'Np_min': max(Np, 2), 'Np_max': max(Np, 2)})
        p = cls(lambda v: 0.0, self.names, self.bounds, popsize=1)
        if not Np: return p, []
        p.setup(blank=True)
        reactor.settle()
        members = []
        for k in range(Np):
            v, s = self.some(), self.rng.choice([self.rng.randint(1, 20), self.rng.randint(1, 9999)])
            i = Individual(p, np.array(v, dtype=float))
            if self.rng.random() < 0.1: s = INF
            else: i.SSE = float(s)
            p[k] = i
            members.append(dict(s=s, v=v))
        return p, members


def guarded(f, r, tag):
    try:
        with watchdog(30): f()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        r.log('exc', what=excText(e))
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}

def random1(seed):
    rng = random.Random(seed)
    seedAll(seed)
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 5, 8, 14, 20]))
    bounds = []
    for n in names:
        lo = rng.choice([0, -50, 100, -9000])
        bounds.append((lo, lo + rng.choice([1, 2, 16, 20, 40, 64, 100, 1000, 9000])))
    r = Readable(rng, names, bounds)
    def go():
        pm = ParameterManager(names, bounds)
        for k in range(4): r.values(pm, r.some(), rng.choice([None, None, 'plain', 'proto']))
        r.namer(pm, r.some())
        p, members = r.population(rng.choice([0, 2, 3, 6, 7, 8, 12, 30, 45]))
        r.table(p, members)
        if members:
            k = rng.randrange(len(members))
            r.one(p[k], members[k]['v'], members[k]['s'])
    return guarded(go, r, 'random')

def unity1(seed):
    rng = random.Random(seed)
    names = rng.sample(NAMES, rng.choice([1, 2, 5]))
    bounds = []
    for n in names:
        lo = rng.choice([0, -50, 100, -9000])
        bounds.append((lo, lo + rng.choice([1, 2, 4, 16, 64])))
    r = Readable(rng, names, bounds)
    def go():
        pm = ParameterManager(names, bounds)
        for k in range(6): r.unity(pm, r.some())
        bounds[:] = [(lo-2, lo+14) for lo, hi in bounds]
        pm.setup(bounds)
        r.cfg.update(lo=[b[0] for b in bounds], hi=[b[1] for b in bounds])
        r.ev = []
        for k in range(3):
            r.unity(pm, r.some())
            r.values(pm, r.some())
    return guarded(go, r, 'unity')

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts != part: continue
        traces.append(unity1(seed*100003 + k) if k % 4 == 3 else random1(seed*100003 + k))
    rng = random.Random(seed)
    byBounds = {}
    for lo, hi, v in beh: byBounds.setdefault((lo, hi), []).append(v)
    for k, (b, vs) in enumerate(sorted(byBounds.items())):
        if enough(): break
        if k % parts != part: continue
        r = Readable(rng, ['x'], [b])
        def go():
            pm = ParameterManager(['x'], [b])
            for v in vs: r.values(pm, [v])
        traces.append(guarded(go, r, 'behaviour'))
    return traces
