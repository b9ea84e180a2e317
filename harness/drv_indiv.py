"""Makes, compares, copies and combines individuals, as Indiv.tla describes."""
import pickle, subprocess, tempfile, shutil, json, os, sys
from base import *
from ade.population import Population
from ade.individual import Individual

MODULE = 'Indiv'
SCALE = 64
NAMES = ['b', 'a', 'x10', 'x2']


class Floaty(object):
    """Behaves like a float, which is all that a fitness has to do."""
    def __init__(self, x): self.x = x
    def __float__(self): return float(self.x)
    def __ge__(self, other): return self.x >= other
    def __lt__(self, other): return self.x < other
    def __eq__(self, other): return self.x == float(other)
    def __hash__(self): return hash(float(self.x))


class World(object):
    def __init__(self, rng, nd, tmp, later):
        self.rng, self.tmp, self.later = rng, tmp, later
        self.names = NAMES[:nd]
        bounds = [(lo, lo + rng.choice([2, 4, 8, 16])) for lo in [rng.choice([-8, -1, 0, 0.5]) for k in range(nd)]]
        self.lo, self.hi = [[int(SCALE*b[j]) for b in bounds] for j in (0, 1)]
        self.p = Population(lambda values: defer.succeed(1.0), self.names, bounds, popsize=4)
        self.all = []
        self.unit = rng.choice([SCALE]*4 + [2.0**-60, 2.0**60, 2.0**1000])
        self.fatal = set()          # those whose being fatal a copy need not keep
        self.halved = 0
        self.ev = []

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def values(self, v):
        """In one of the forms that values can be given in"""
        v = [x / float(SCALE) for x in v]
        if all(x == int(x) for x in v) and self.rng.random() < 0.4: v = [int(x) for x in v]
        if 0 in v and self.rng.random() < 0.4: v = [-0.0 if x == 0 else x for x in v]
        return self.rng.choice([list, tuple, lambda x: np.array(x, dtype=float)])(v)

    def fitness(self, f):
        r = self.rng
        if f['k'] == 'none': return None
        if f['k'] == 'nan': return r.choice([float('nan'), np.float64('nan')])
        if f['k'] == 'inf': return r.choice([float('inf'), np.float64('inf')])
        x = f['x'] / self.unit
        forms = [float, np.float64, Floaty]
        if x == int(x): forms.append(int)
        if x == 0: forms.append(lambda x: -0.0)
        return r.choice(forms)(x)

    def add(self, how, func, **kw):
        try: i, refused = func(), False
        except ValueError: i, refused = Individual(self.p, [0.0]*len(self.names)), True
        self.all.append(i)
        self.log('make', how=how, refused=refused, **kw)

    def make(self, how, a=None, b=None, f=None, v=None):
        I = lambda n: self.all[n-1]
        if how == 'new': self.add(how, lambda: Individual(self.p, self.values(v)), v=v)
        elif how == 'spawn': self.add(how, lambda: I(a).spawn(self.values(v)), a=a, v=v)
        elif how == 'from values':
            self.add(how, lambda: self.p.spawn(self.values(v)), v=v)
        elif how == 'from quarters':
            self.add(how, lambda: self.p.spawn(np.array(v) / 4.0, fromUnity=True), v=v)
        elif how in ('copy', 'pickle'):
            def func():
                if how == 'copy': return I(a).copy()
                i = pickle.loads(pickle.dumps(I(a)))
                i.p = self.p
                return i
            self.add(how, func, a=a)
            if not I(a): self.fatal.add(len(self.all))
            elif a in self.fatal: self.fatal.add(len(self.all))
        elif how == 'add': self.add(how, lambda: I(a) + I(b), a=a, b=b)
        elif how == 'sub': self.add(how, lambda: I(a) - I(b), a=a, b=b)
        elif how == 'mul':
            if f % 2: self.halved += 1
            self.add(how, lambda: I(a) * (f/2.0 if f % 2 or self.rng.random() < 0.5 else f//2), a=a, f=f)

    def bad(self):
        v = [1.0]*(len(self.names) + self.rng.choice([-1, 1, 2]))
        if self.rng.random() < 0.5: v = np.array(v)
        try:
            Individual(self.p, v)
            refused = False
        except ValueError: refused = True
        self.log('bad', refused=refused)

    def update(self, a, v):
        refused = False
        try: self.all[a-1].update(self.values(v))
        except ValueError: refused = True
        self.log('update', a=a, v=v, refused=refused)

    def item(self, a, k, x):
        self.all[a-1][k-1] = x / float(SCALE)
        self.log('item', a=a, k=k, x=x)

    def limit(self, a):
        self.p.limit(self.all[a-1])
        self.log('limit', a=a)

    def score(self, a, f):
        self.all[a-1].SSE = self.fitness(f)
        self.fatal.discard(a)
        self.log('score', a=a, f=f)

    def inf(self, x):
        x = float(x)
        return INF if x == float('inf') else toInt(x*self.unit)

    def read(self, a):
        i = self.all[a-1]
        e = dict(op='read', a=a, iter=vec(list(i), SCALE), items=[toInt(i[k], SCALE) for k in range(len(self.names))],
                 fractions=vec(self.p.pm.toUnity(np.array(i.values)), 4096),
                 named=[toInt(i[n], SCALE) for n in self.names],
                 params=[dict(n=n, v=toInt(v, SCALE)) for n, v in i.params.items()],
                 sse=self.inf(i.SSE), float=self.inf(float(i)), true=bool(i), checkTrue=a not in self.fatal,
                 hash=str(hash(i)), hash2='')
        if self.rng.random() < 0.3:
            # As saved
            path = os.path.join(self.tmp, 'saved')
            i.save(path)
            with open(path, 'rb') as fh: e['params'] = [dict(n=n, v=toInt(v, SCALE)) for n, v in pickle.load(fh).items()]
        self.ev.append(e)
        self.later.append((e, pickle.dumps((len(self.names), [float(x) for x in i], float(i.SSE)))))

    def compare(self, a, b):
        i, j = self.all[a-1], self.all[b-1]
        other = self.rng.choice([j, j.values, list(j)])
        self.log('compare', a=a, b=b, lt=bool(i < j), gt=bool(i > j), eq=bool(i == j), ne=bool(i != j),
                 equals=bool(i.equals(other)), sameHash=hash(i) == hash(j))

    def versus(self, a, f):
        x = float('inf') if f['k'] == 'inf' else f['x'] / self.unit
        self.log('versus', a=a, f=f, lt=bool(self.all[a-1] < x), gt=bool(self.all[a-1] > x))

    def sorted(self):
        order = sorted(range(len(self.all)), key=lambda k: self.all[k])
        self.log('sorted', order=[k+1 for k in order])


def someValues(rng, nd):
    return [SCALE*rng.choice([-2, -1, 0, 0, 1, 1, 2]) + rng.choice([0, 0, 0, 32]) for k in range(nd)]

def someFit(rng):
    x = rng.random()
    if x < 0.25: return dict(k=rng.choice(['none', 'nan', 'inf']), x=0)
    if x < 0.35: return dict(k='num', x=-SCALE*rng.choice([1, 2, 3]))
    if x < 0.5: return dict(k='num', x=rng.choice([2**29, 2**30, 10**9]) + rng.choice([0, 0, 1, 2]))
    return dict(k='num', x=SCALE*rng.choice([0, 0, 1, 1, 2, 5]) + rng.choice([0, 0, 16]))

def randomly(rng, w):
    nd = len(w.names)
    w.make('new', v=someValues(rng, nd))
    w.make('new', v=someValues(rng, nd))
    ops = 0
    for k in range(rng.choice([10, 20, 40])):
        n = len(w.all)
        a, b = rng.randint(1, n), rng.randint(1, n)
        x = rng.random()
        if x < 0.06: w.make('new', v=rng.choice([someValues(rng, nd), [toInt(y, SCALE) for y in w.all[a-1]]]))
        elif x < 0.08: w.make('spawn', a=a, v=someValues(rng, nd))
        elif x < 0.1: w.make('from values', v=someValues(rng, nd))
        elif x < 0.12: w.make('from quarters', v=[rng.choice([0, 1, 2, 3, 4]) for k in range(nd)])
        elif x < 0.2: w.make(rng.choice(['copy', 'copy', 'pickle']), a=a)
        elif x < 0.3 and ops < 8:
            ops += 1
            f = rng.choice([-4, -2, 0, 2, 4, 1, 3] if w.halved < 4 else [-4, -2, 0, 2, 4])
            w.make(rng.choice(['add', 'sub', 'mul']), a=a, b=b, f=f)
        elif x < 0.33: w.bad()
        elif x < 0.4: w.update(a, someValues(rng, nd + rng.choice([0, 0, 0, 1, -1]) if nd > 1 else nd))
        elif x < 0.42: w.limit(a)
        elif x < 0.47: w.item(a, rng.randint(1, nd), rng.choice(someValues(rng, nd)))
        elif x < 0.6: w.score(a, someFit(rng))
        elif x < 0.75: w.read(a)
        elif x < 0.92: w.compare(a, b)
        elif x < 0.97:
            f = someFit(rng)
            w.versus(a, f if f['k'] in ('num', 'inf') and f['x'] >= 0 else dict(k='inf', x=0))
        else: w.sorted()

def replay(w, b):
    for e in b:
        if e['op'] == 'make': w.make(**{k: e[k] for k in e if k not in ('op', 'refused')})
        elif e['op'] == 'score': w.score(e['a'], e['f'])
        elif e['op'] == 'item': w.item(e['a'], e['k'], e['x'])
        elif e['op'] == 'compare': w.compare(e['a'], e['b'])

def scenario(rng, b, tmp, later, tag):
    w = World(rng, rng.randint(1, 4) if b is None else 2, tmp, later)
    try:
        with watchdog(20):
            if b is None: randomly(rng, w)
            else: replay(w, b)
            for k in range(len(w.all)): w.read(k+1)
            w.sorted()
    except Hang:
        w.log('hang')
        HANGS.append(1)
    except Exception as e:
        w.log('exc', what=excText(e))
    return {'cfg': dict(names=w.names, lo=w.lo, hi=w.hi), 'ev': w.ev, 'tag': tag}

def hashes(inFile, outFile):
    """In another process: hashes of equal individuals"""
    with open(inFile, 'rb') as fh: every = pickle.load(fh)
    result, pops = [], {}
    for x in every:
        nd, values, sse = pickle.loads(x)
        if nd not in pops:
            pops[nd] = Population(lambda values: defer.succeed(1.0), NAMES[:nd], [(-5, 5)]*nd, popsize=4)
        i = Individual(pops[nd], values)
        i.SSE = sse
        result.append(str(hash(i)))
    with open(outFile, 'w') as fh: json.dump(result, fh)

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces, later = [], []
    tmp = tempfile.mkdtemp(prefix='indiv-')
    try:
        for k in range(n):
            if enough(): break
            if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), None, tmp, later, 'random'))
        for k, b in enumerate(beh):
            if enough(): break
            if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), b, tmp, later, 'behaviour'))
        inFile, outFile = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        with open(inFile, 'wb') as fh: pickle.dump([x for _, x in later], fh)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), inFile, outFile],
                           env=dict(os.environ, PYTHONHASHSEED=str(seed % 1000 + 1)), timeout=300)
        if r.returncode == 0:
            with open(outFile) as fh: found = json.load(fh)
        else: found = ['none'] * len(later)
        for (e, _), h in zip(later, found): e['hash2'] = h
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return traces


if __name__ == '__main__': hashes(*sys.argv[1:])
