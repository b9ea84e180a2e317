"""Fills small histories to see which record goes, as Thin.tla describes."""
from base import *
from drv_roster import Roster, guarded, History, Individual

MODULE = 'Thin'
BEH_MAX = 5

class Thin(Roster):
    def addx(self, x):
        s, v, label = x
        v = list(v) if isinstance(v, (list, tuple)) else [v]
        i = Individual(self.fake, v)
        i.SSE = float(s)
        self.log('add', l=label, **self.entry(i))
        self.h.add(i, neverInPop=(label == 'never'))
        if label == 'pop': self.inPop.append(i)

    def dropx(self, x):
        for i in self.inPop:
            if self.entry(i) == dict(s=x[0], v=[x[1]]): break
        else: return
        self.inPop.remove(i)
        self.h.notInPop(i)

    def drop(self, _):
        if not self.inPop: return
        self.h.notInPop(self.inPop.pop(self.rng.randrange(len(self.inPop))))

    def clear(self, _):
        self.h.clear()
        self.inPop = []

    def purge(self, _):
        self.h.purgePop()
        self.inPop = []

    def seen(self):
        reactor.settle()
        self.log('seen', recs=[dict(x, l=l) for l, name in (('pop', 'inPop'), ('former', 'notInPop'), ('never', 'neverInPop'))
                               for x in self.labelled(name)])


def thin(rng, nmax, nd, steps, tag):
    freshReactor()
    names = ['b', 'a'][:nd]
    cfg = dict(nmax=nmax, nd=nd, names=names)
    r = Thin(rng, cfg, h=History(names, N_max=nmax))
    def go():
        for op, x in steps:
            getattr(r, op)(x)
            r.seen()
    return guarded(go, r, cfg, tag)

def one(fam, seed):
    rng = random.Random(seed)
    seedAll(seed)
    nd = rng.choice([1, 1, 2])
    nmax = rng.choice([2, 3, 4, 5, 6, 7])
    # What keeps the numbers of the specification within 32 bits
    top = rng.choice([3, 4]) if nd == 2 else rng.choice([4, 8, 12])
    p, steps, base = rng.choice([0.1, 0.4, 0.7]), [], [rng.randint(0, top-1) for k in range(nd)]
    for k in range(rng.choice([12, 25])):
        x = rng.random()
        if x < 0.2: steps.append(('drop', 0))
        elif x < 0.22: steps.append((rng.choice(['clear', 'purge']), 0))
        else:
            v = [rng.randint(0, top) if rng.random() < 0.8 else base[j] for j in range(nd)]
            steps.append(('addx', (rng.randint(1, top), v, 'pop' if rng.random() < p else 'never')))
    return thin(rng, nmax, nd, steps, fam)

def twins(seed):
    """A full history of many records, with two non-members the same, and some more records for it."""
    rng = random.Random(seed)
    seedAll(seed)
    nd, nmax, few = rng.choice([1, 2]), rng.choice([20, 60, 100, 141, 141]), rng.choice([0.03, 0.3])
    names = ['b', 'a'][:nd]
    cfg = dict(nmax=nmax, nd=nd, names=names)
    freshReactor()
    r = Thin(rng, cfg, h=History(names, N_max=nmax))
    def some(k): return (100 + k, [rng.randint(0, 3000) for j in range(nd)], 'pop' if rng.random() < few else 'never')
    def go():
        xs = [some(k) for k in range(nmax - 2)]
        twin = some(nmax)[:2] + ('never',)
        xs.insert(rng.randrange(len(xs)), twin)
        xs.insert(rng.randrange(len(xs)), twin)
        for x in xs:
            r.addx(x)
            if rng.random() < 0.2: r.drop(0)
        reactor.settle()
        r.ev = []
        r.seen()
        r.addx(some(nmax + 1))
        r.seen()
    return guarded(go, r, cfg, 'twins')

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(twins(seed*100003 + k) if fam == 'twins' else one(fam, seed*100003 + k))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        traces.append(thin(rng, BEH_MAX, 1, [x for x in b if x[0] != 'end'], 'behaviour'))
    return traces
