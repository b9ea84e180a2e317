"""
Saves populations, loads them here and in other processes, and goes on with them,
as Store.tla describes.
"""
import os, sys, json, shutil, subprocess, tempfile
from base import *
from ade import abort
from ade.constraints import Constraints
from ade.de import DifferentialEvolution
from ade.history import History
from ade.population import Population

MODULE = 'Store'
MICRO = 1000000


class P(Population):
    """A population of as few as you like."""
    Np_min = 4

class Con(Constraints):
    """A constraint on the first parameter, with a limit of its own."""
    registry = {'check': [['a'], None]}
    def check(self, params): return params['a'] <= self.limit

def con1(params): return params['a'] + params.get('b', 0) < 8

def con2(params): return params['a'] > -4.5

PROBES = [-4.9, -3.0, 0.0, 2.5, 3.5, 4.0, 4.9]


def fitness(values):
    """A whole number"""
    return float(int(sum(8*(v - 0.7*k)**2 for k, v in enumerate(values)) + 1))


class Lab(object):
    def __init__(self, job, scratch):
        self.job, self.scratch = job, scratch
        self.rng = random.Random(job['seed'])
        seedAll(job['seed'])
        self.p = None
        self.saved = job['saved']
        self.ev = []
        self.calls = 0
        self.saveAt = None
        self.told = -1
        freshReactor()
        abort.restart()
        self.log('fresh')

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    #--- What ade calls -----------------------------------------------------------

    def func(self, values):
        if values is None: return 0.0
        self.calls += 1
        if self.saveAt is not None and self.calls >= self.saveAt:
            self.saveAt = None
            self.save(during=True)
        result = fitness(values)
        if self.rng.random() < 0.5: return result
        d = defer.Deferred()
        reactor.callLater(self.rng.choice([0, 0.01, 0.1]), d.callback, result)
        return d

    def report(self, values, counter, SSE):
        self.told = toInt(SSE)

    #--- What is to be seen ---------------------------------------------------------

    def record(self, s, values):
        return '%s|%s' % (toInt(s), ','.join(repr(float(np.float32(v))) for v in values))

    def snap(self):
        p = self.p
        members = []
        for i in p:
            values = [float(v) for v in i.values]
            members.append(dict(x=','.join(repr(v) for v in values), v=vec(values, MICRO), s=fit(i),
                                h=self.record(i.SSE, values), true=bool(fit(i) == toInt(fitness(values)))))
        h = p.history
        hist = []
        for k in range(len(h)):
            row = h[k]
            hist.append(self.record(row[0], row[1:]))
        cons = [bool(p.pm.passesConstraints(np.array([x] + [0.5*x]*(p.Nd-1)))) for x in PROBES]
        best = p.best()
        return dict(members=members, best=0 if best is None else [k for k, i in enumerate(p) if i is best][0] + 1,
                    ks=[] if p.KS is None else [int(k)+1 for k in p.KS], names=list(p.pm.names), np=int(p.Np),
                    set=[toInt(p.statusQuoScore, MICRO), toInt(p.targetFraction, MICRO), int(p.popsize), int(p.Nd)],
                    bounds=[vec(b, MICRO) for b in zip(p.pm.mins, p.pm.maxs)], cons=cons, hist=hist,
                    total=int(getattr(h, 'N_total', -1)))

    #--- Steps ------------------------------------------------------------------------

    def setup(self):
        if self.p is not None and len(self.p): return self.change()
        j = self.job
        cons = {'none': [], 'func': [con1], 'funcs': [con1, con2], 'object': None}[j['cons']]
        if cons is None:
            cons = Con(limit=3.2)
            if self.rng.random() < 0.5: cons.append(con2)
        P.Np_min = P.Np_max = j['np']
        self.p = P(self.func, j['names'], [tuple(b) for b in j['bounds']], constraints=cons,
                   popsize=self.rng.choice([1, 2, 3, 7]), targetFraction=self.rng.choice([None, 0.01, 0.2]))
        self.p.history = History(j['names'], N_max=j['nmax'])
        self.told = -1
        self.p.addCallback(self.report)
        if self.rng.random() < 0.15: self.p.setup(blank=True)
        else: self.p.setup(uniform=self.rng.random() < 0.5)
        reactor.settle(20)
        self.log('setup', snap=self.snap())

    def path(self, n):
        return os.path.join(self.scratch, '%s-%d.dat' % (self.job['name'], n))

    def save(self, during=False):
        if self.p is None: return
        before, ok = self.snap(), True
        n = len(self.saved) + 1
        try: self.p.save(self.path(n))
        except Exception as e: ok = excText(e)
        if ok is True: self.saved.append(n)
        self.log('save', before=before, snap=self.snap(), during=during, ok=ok is True, what=str(ok))

    def load(self, confine=False):
        if not self.saved: return
        n = self.rng.choice([self.saved[-1], self.rng.choice(self.saved)])
        if self.ev and any(e['op'] == 'abort' for e in self.ev): abort.restart()
        reactor.settle()
        bounds = [[-2, 3] for b in self.job['bounds']] if confine else None
        kw = dict(bounds=[tuple(b) for b in bounds]) if confine else {}
        try:
            self.p = P.load(self.path(n), func=self.func, **kw)
        except Exception as e:
            self.log('load', file=n, ok=False, confine=confine, bounds=[], snap=[], what=excText(e))
            self.p = None
            return
        reactor.settle()
        self.told = -1
        self.p.addCallback(self.report)
        self.log('load', file=n, ok=True, confine=confine, bounds=[vec(b, MICRO) for b in bounds] if confine else [],
                 snap=self.snap())

    def confine(self): self.load(True)

    def change(self):
        if not self.p: return
        p, r = self.p, self.rng
        x = r.random()
        i = p.spawn(np.array([r.uniform(-1.9, 2.9) for k in range(p.Nd)]))
        i.SSE = fitness(i.values)
        if x < 0.4: p[r.randrange(len(p))] = i
        elif x < 0.7: p.push(i)
        elif x < 0.85: r.choice(list(p)).blacklist()
        else: p.replacement(sqs=r.choice([0.25, 0.5, 2.0]))
        reactor.settle()
        self.log('change', snap=self.snap())

    def evolve(self):
        if not self.p: return
        self.calls = 0
        de = DifferentialEvolution(self.p, logHandle=None, maxiter=self.rng.choice([1, 1, 2, 3]), CR=0.8, F=0.7,
                                   adaptive=self.rng.random() < 0.5, xSSE=False)
        bag = []
        de().addBoth(bag.append)
        for k in range(50):
            if bag: break
            reactor.settle(5)
        reactor.settle()
        self.saveAt = None
        self.log('evolve', ended=bool(bag and bag[0] is self.p), calls=self.calls, told=self.told, snap=self.snap())

    def savein(self):
        if not self.p: return
        self.saveAt = self.rng.randint(1, len(self.p))
        self.evolve()

    def abort(self):
        if not self.p: return
        kind = self.rng.choice(['now', 'pop', 'key'])
        if kind == 'now': abort.abortNow()
        elif kind == 'pop': self.p.abort()
        else: fakereactor.FakeStandardIO.protocols[-1].dataReceived(b'\n')
        reactor.settle()
        self.log('abort', snap=self.snap())

    def go(self):
        try:
            with watchdog(40):
                for step in self.job['steps']:
                    getattr(self, step)()
        except Hang:
            self.log('hang')
            HANGS.append(1)
        except Exception as e:
            self.log('exc', what=excText(e))
        return dict(ev=self.ev, saved=self.saved)


def stage(jobs, scratch):
    return [Lab(job, scratch).go() if not enough() else dict(ev=[], saved=job['saved']) for job in jobs]

def elsewhere(jobs, scratch, seed):
    """Does this stage in another process."""
    path, out = os.path.join(scratch, 'jobs.json'), os.path.join(scratch, 'out.json')
    with open(path, 'w') as fh: json.dump(jobs, fh)
    subprocess.run([sys.executable, os.path.abspath(__file__), path, out, scratch], check=True, timeout=400,
                   env=dict(os.environ, PYTHONHASHSEED=str(seed % 1000 + 1)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(out) as fh: return json.load(fh)


def someStages(rng):
    """Steps in each of up to three processes"""
    result = []
    for k in range(rng.choice([1, 2, 2, 3])):
        if k: steps = [rng.choice(['load', 'load', 'load', 'confine'])]
        else: steps = rng.choice([['setup'], ['setup'], ['setup'], ['setup', 'savein'], ['setup', 'savein', 'load']])
        steps += [rng.choice(['evolve', 'evolve', 'change', 'save', 'save', 'savein', 'abort', 'load', 'confine'])
                  for j in range(rng.randint(1, 5))] + ['save']
        if rng.random() < 0.5: steps.append(rng.choice(['evolve', 'load']))
        result.append(steps)
    return result

def someJob(rng, name, stages):
    names = rng.choice([['a', 'b'], ['b', 'a', 'c'], ['a']])
    Np = rng.choice([4, 5, 6])
    return dict(name=name, names=names, np=Np, bounds=[rng.choice([[-5, 5], [-2, 4]]) for n in names],
                cons=rng.choice(['none', 'func', 'funcs', 'object']), nmax=rng.choice([Np+3, 20, 1500]),
                stages=stages, saved=[], seed=rng.randrange(2**30))

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    jobs = []
    for k in range(n):
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        jobs.append((someJob(rng, 'r%d' % k, someStages(rng)), 'random'))
    for k, b in enumerate(beh):
        if k % parts != part: continue
        rng = random.Random(seed*100003 + 50000 + k)
        steps, stages = [x for x in b if x != 'end'], [[]]
        for x in steps:
            # A population being loaded may be in another process
            if x in ('load', 'confine') and len(stages) < 3 and rng.random() < 0.5: stages.append([])
            stages[-1].append(x)
        jobs.append((someJob(rng, 'b%d' % k, stages), 'behaviour'))
    traces = [dict(cfg=dict(name=job['name']), ev=[], tag=tag) for job, tag in jobs]
    scratch = tempfile.mkdtemp(prefix='store-')
    try:
        for s in range(3):
            todo = [k for k, (job, _) in enumerate(jobs) if len(job['stages']) > s]
            if not todo: break
            work = [dict(jobs[k][0], steps=jobs[k][0]['stages'][s], seed=jobs[k][0]['seed'] + s) for k in todo]
            done = stage(work, scratch) if s == 0 else elsewhere(work, scratch, seed + s)
            for k, result in zip(todo, done):
                traces[k]['ev'] += result['ev']
                jobs[k][0]['saved'] = result['saved']
    finally: shutil.rmtree(scratch, ignore_errors=True)
    return [t for t in traces if len(t['ev']) > 1]


if __name__ == '__main__':
    import drv_store
    quietly()
    with open(sys.argv[1]) as fh: jobs = json.load(fh)
    with open(sys.argv[2], 'w') as fh: json.dump(drv_store.stage(jobs, sys.argv[3]), fh)
