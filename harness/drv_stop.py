"""Runs differential evolution to its end as Stop.tla describes."""
from base import *
from ade import abort
from ade.population import Population
from ade.de import DifferentialEvolution

MODULE = 'Stop'
M = 1000000

class World(object):
    def __init__(self, runs, Np, slow, seed, tag):
        self.runs, self.Np, self.slow, self.tag = runs, Np, slow, tag
        self.seed = seed
        self.rng = random.Random(seed)
        self.ev = []
        self.plan = []
        self.setup = True
        self.N = 0
        self.waits = []

    def log(self, op, **kw):
        kw['op'] = op
        self.ev.append(kw)

    def func(self, values):
        if values is None: return 0
        if self.setup:
            x = self.rng.randint(1000000000, 1900000000)
            while x in self.SSEs: x += 1
            self.SSEs.add(x)
            return x
        if self.N == self.Np: self.flush()
        k = self.N
        self.N += 1
        if k == 0:
            self.kind = self.plan.pop(0) if self.plan else self.rng.choice(['better', 'worse'])
            self.at = self.rng.randrange(self.Np)
        x = 1950000000 + self.rng.randint(0, 10000)
        if k == self.at:
            if self.kind in ('better', 'goal'):
                x = self.best*6//10
                if self.kind == 'goal' and self.goal > 0: x = min(x, self.goal - 1)
                elif self.goal > 0 and x < self.goal: x = self.goal
                if self.kind == 'equal' and self.goal > 0: x = self.goal
                if x >= self.best or x < 50: x = 1950000000
            elif self.kind == 'slight':
                x = self.best - self.best//400
            elif self.kind == 'equal' and self.goal > 0: x = self.goal
        if x < self.best:
            self.won = 'better' if x <= self.best*65//100 else 'unclear'
            self.best = x
        elif x < 1900000000: self.won = 'unclear'
        elif self.rng.random() < 0.2: return self.rng.choice([None, np.inf, np.nan])
        return float(x)

    def flush(self):
        if self.N < self.Np: return
        self.log('round', kind=self.won, best=self.best)
        self.N = 0
        self.won = 'worse'

    def told(self, values, counter, SSE):
        waits = self.slow and self.rng.random() < 0.5
        self.log('told', s=toInt(SSE), waits=waits)
        if waits:
            d = defer.Deferred()
            self.waits.append(d)
            return d

    def generation(self, kg):
        self.flush()
        self.log('gen', k=int(kg), lo=toInt(self.de.fm.lowest, M), hi=toInt(self.de.fm.highest, M))

    def done(self, result):
        self.flush()
        self.ended = True
        self.log('end', best=toInt(self.p.best().SSE))

    def go(self, c):
        self.goal = c['goal']
        self.plan = list(c['plan'])
        self.ended = False
        self.N = 0
        self.won = 'worse'
        seq = c['seq']
        kw = dict(CR=c['cr'], F=(c['lo'], c['hi']) if seq else c['lo'], maxiter=c['maxgen'],
                  adaptive=c['adaptive'], bitterEnd=c['bitter'], dwellByGrave=c['dwell'],
                  randomBase=self.rng.choice([False, True, 0.5]), logHandle=None)
        if self.goal > 0: kw['goalSSE'] = float(self.goal)
        crit = math.sqrt((1 - 0.5*c['cr'])/self.Np)
        self.log('run', c=dict(
            maxgen=c['maxgen'], goal=self.goal, bitter=c['bitter'], dwell=c['dwell'], adaptive=c['adaptive'],
            seq=seq, lo=toInt(c['lo'], M), hi=toInt(c['hi'] if seq else c['lo'], M), crit=toInt(crit, M)))
        self.de = DifferentialEvolution(self.p, **kw)
        self.de(self.generation).addBoth(self.done)
        N = 0
        while not self.ended and N < 5000:
            N += 1
            reactor.settle()
            if self.waits:
                self.log('heard')
                self.waits.pop(0).callback(None)
            elif not self.ended:
                reactor.settle()
                if not self.ended and not self.waits:
                    self.log('stuck')
                    return

    def run(self):
        freshReactor()
        try:
            with watchdog(30):
                seedAll(self.seed)
                abort.restart()
                self.SSEs = set()
                cls = type('P', (Population,), {'Np_min': self.Np, 'Np_max': self.Np})
                self.p = cls(self.func, ['a', 'b', 'c'], [(0, 1)]*3, popsize=1)
                self.p.addCallback(self.told)
                bag = []
                slow, self.slow = self.slow, False
                self.p.setup(uniform=True).addBoth(bag.append)
                reactor.settle()
                self.slow = slow
                self.setup = False
                self.best = min(self.SSEs)
                for c in self.runs: self.go(c)
        except Hang:
            self.log('hang')
            HANGS.append(1)
        except Exception as e:
            self.log('exc', what=excText(e))
        return {'cfg': {'x': 0}, 'ev': self.ev, 'tag': self.tag}

def someF(rng, Np, cr):
    crit = math.sqrt((1 - 0.5*cr)/Np)
    x = rng.random()
    if x < 0.3:
        n = rng.choice([0.5, 1.5, 2.5, 5.5, 10.5])
        return dict(seq=False, lo=crit/0.89**n, hi=0)
    if x < 0.4: return dict(seq=True, lo=0, hi=1)
    lo = crit/0.89**rng.choice([0.5, 0.5, 1.5, 4.5])
    return dict(seq=True, lo=lo, hi=min(1.9, max(lo, lo*rng.choice([1, 2, 3.2, 4, 6]))))

def someRun(rng, Np):
    cr = rng.choice([0.8, 0.5, 0.0, 1.0])
    maxgen = rng.choice([0, 1, 2, 5, 10, 20, 35])
    p = rng.choice([0.1, 0.2, 0.5, 0.9])
    plan = [rng.choice(['better', 'better', 'better', 'slight']) if rng.random() < p else 'worse' for k in range(40)]
    goal = -1
    if rng.random() < 0.3:
        goal = rng.choice([100000000, 400000000, 800000000])
        if rng.random() < 0.4: plan[rng.randrange(8)] = 'equal'
        if rng.random() < 0.7: plan[rng.randrange(20)] = 'goal'
    c = dict(cr=cr, maxgen=maxgen, bitter=rng.random() < 0.2, dwell=rng.choice([0, 1, 2, 5]),
             adaptive=rng.random() < 0.85, plan=plan, goal=goal)
    c.update(someF(rng, Np, cr))
    return c

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed)
    traces = []
    for k in range(n):
        if enough(): break
        Np = rng.choice([4, 5, 8, 20])
        runs = [someRun(rng, Np) for j in range(rng.choice([1, 1, 1, 2]))]
        slow = rng.random() < 0.3
        if k % parts == part:
            traces.append(World(runs, Np, slow, seed*100003 + k, 'random').run())
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        Np = 5
        crit = math.sqrt(0.6/Np)
        c = dict(cr=0.8, maxgen=b['maxgen'], bitter=b['bitter'], dwell=b['dwell'], adaptive=True,
                 plan=b['gens'], goal=1000 if b['goal'] else -1,
                 seq=False, lo=crit/0.89**(2.5 if b['maxgen'] < 10 else 5.5), hi=0)
        traces.append(World([c], Np, False, seed*100003 + 50000 + k, 'behaviour').run())
    return traces
