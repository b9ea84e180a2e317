"""Changes the members of populations, looks at their ranking, and samples indices, as Rank.tla describes."""
import pickle
from base import *
from ade import abort
from ade.population import Population

MODULE = 'Rank'


class P(Population):
    """A population of as few as you like."""


class Ranks(object):
    def __init__(self, rng, Np, filled):
        self.rng = rng
        self.ev = []
        self.N = 0
        self.unit = rng.choice(UNITS)
        freshReactor()
        abort.restart()
        P.Np_min = Np
        self.p = P(lambda v: 0.0, ['id', 'b'], [(0, 10**6), (0, 1)], popsize=1)
        empty = []
        if rng.random() < 0.1:
            self.cfg = dict(members=[])
            self.see()
            self.cfg = None
        self.p.setup(blank=True)
        reactor.settle()
        self.number(self.p)
        early, self.ev = self.ev, []
        self.cfg = dict(members=[] if early else self.members())
        if early: self.ev = early + [dict(op='list', members=self.members())]
        if filled:
            for k in range(len(self.p)): self.set((k, rng.choice([self.N*7 + 1, rng.randint(1, 5000)])))

    def number(self, individuals):
        for i in individuals:
            self.N += 1
            i.values[0] = self.N

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def entry(self, i):
        return dict(id=toInt(i.values[0]), s=fit(i, self.unit))

    def members(self):
        return [self.entry(i) for i in self.p]

    def make(self, s):
        self.N += 1
        i = self.p.spawn([self.N, 0.5])
        i.SSE = self.rng.choice([None, np.inf, np.nan]) if s == INF else real(s, self.unit)
        return i

    def someFit(self):
        r = self.rng
        if self.p and r.random() < 0.3: return fit(r.choice(list(self.p)), self.unit)
        if self.p and r.random() < 0.1: return min(INF, 1 + fit(r.choice(list(self.p)), self.unit))
        return r.choice([r.randint(0, 6), r.randint(0, 10000), r.randint(0, 10000), r.randint(10**6, 19*10**8), INF])

    #--- Changes --------------------------------------------------------------

    def set(self, x=None):
        k, s = x or (self.rng.randrange(len(self.p)), self.someFit())
        i = self.make(s)
        self.log('set', k=k, i=self.entry(i))
        self.p[k] = i

    def push(self, x=None):
        i = self.make(x[1] if x else self.someFit())
        self.log('push', i=self.entry(i))
        self.p.push(i)
        if self.rng.random() < 0.7: self.see()

    def blacklist(self, x=None):
        i = self.p[x[0]] if x else self.rng.choice(list(self.p))
        self.log('blacklist', id=toInt(i.values[0]))
        i.blacklist()

    def reload(self, x=None):
        """Through a pickle and back: the same members, whatever the order was found to be."""
        reactor.settle()
        members = self.members()
        self.p = pickle.loads(pickle.dumps(self.p))
        self.log('list', members=members)

    def look(self, x=None):
        self.see()

    def again(self, x=None):
        """Another set-up."""
        self.p.setup(blank=True)
        reactor.settle()
        self.number(self.p)
        self.log('list', members=self.members())

    #--- Looks ----------------------------------------------------------------------

    def see(self):
        p = self.p
        members = self.members()
        best = p.best()
        if not members:
            self.log('see', members=[], len=len(p), iter=[], index=[], truth=bool(p), contains=[], strange=False,
                     ks=[], sorted=[], kbest=0, best=0 if best is None else 1)
            return
        other = self.make(123456)
        self.N -= 1
        # In any order, as any of these could be the one that renews the ranking
        found = {}
        def ks(): found['ks'] = [int(k) for k in p.KS]
        def isorted(): found['sorted'] = [toInt(i.values[0]) for i in p.iSorted]
        def kbest(): found['kbest'] = int(p.kBest)
        def bests(): found['best'] = toInt(p.best().values[0])
        looks = [ks, isorted, kbest, bests]
        self.rng.shuffle(looks)
        for f in looks: f()
        self.log('see', members=members, len=len(p), iter=[toInt(i.values[0]) for i in p],
                 index=[toInt(p[k].values[0]) for k in range(len(p))], truth=bool(p),
                 contains=[bool(i in p) for i in p], strange=bool(other in p), **found)

    def sample(self, x=None):
        r = self.rng
        n = len(self.p)
        N = r.choice([1, 1, 2, 3, r.randint(1, n+1)])
        excl = r.sample(range(n), r.choice([0, 0, 1, 1, 2, 3, n-1, n])) if n > 3 else []
        if r.random() < 0.1: excl = excl + [n + 3]
        base8 = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9])
        if base8 == 0: base = r.choice([False, 0.0, 0])
        elif base8 == 8: base = r.choice([True, 1.0, None])
        else: base = base8/8.0
        kw = {} if base is None else {'randomBase': base}
        refused, got = False, []
        try:
            with watchdog(4): got = self.p.sample(N, *excl, **kw)
        except Hang: raise
        except Exception: refused = True
        else: got = [int(got)] if N == 1 else [int(k) for k in got]
        self.log('sample', n=N, excl=excl, base8=base8, got=got, refused=refused)

    def draws(self, x=None, many=1500):
        """Needs every fitness to be another."""
        r = self.rng
        n = len(self.p)
        for k, s in enumerate(r.sample(range(1, 5000), n)): self.set((k, s))
        excl = r.sample(range(n), r.choice([0, 0, 1, 2])) if n > 4 else []
        base8 = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8])
        base = base8/8.0 if base8 < 8 else r.choice([True, 1.0])
        count = [0]*n
        for j in range(many): count[int(self.p.sample(1, *excl, randomBase=base))] += 1
        self.log('draws', excl=excl, base8=base8, count=count)


def scenario(rng, Np, steps, filled, tag):
    r = None
    try:
        with watchdog(30):
            r = Ranks(rng, Np, filled)
            for op, x in steps: getattr(r, op)(x)
            r.see()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        if r is None: return {'cfg': None, 'ev': [dict(op='exc', what=excText(e))], 'tag': tag}
        r.log('exc', what=excText(e))
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}

BAG = dict(rank=['set']*4 + ['push']*4 + ['blacklist']*2 + ['look']*6 + ['reload', 'again', 'sample'],
           sample=['sample']*12 + ['set', 'push', 'blacklist'], draws=['draws', 'set', 'look'])

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        seedAll(seed*100003 + k)
        steps = [(rng.choice(BAG[fam]), None) for j in range(rng.choice([4, 10, 25]) if fam != 'draws' else 2)]
        if fam == 'draws': steps.append(('draws', None))
        traces.append(scenario(rng, rng.choice([3, 4, 5, 8, 12]), steps, rng.random() < 0.8, fam))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        traces.append(scenario(rng, 3, [x for x in b if x[0] != 'end'], False, 'behaviour'))
    return traces
