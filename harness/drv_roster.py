"""Records individuals in histories, their own or a population's, as Roster.tla describes."""
import os, subprocess, json, tempfile, shutil
from base import *
from ade import abort
from ade.population import Population
from ade.individual import Individual
import ade.history
from ade.history import History, Analysis, ClosestPairFinder

MODULE = 'Roster'

NAMES = [['b', 'a', 'c'], ['x'], ['gamma', 'alpha', 'beta', 'delta'], ['p', 'q']]


class Fake(object):
    """What an individual needs of a population."""
    def __init__(self, names): self.Nd = len(names)


class Roster(object):
    def __init__(self, rng, cfg, h=None, p=None):
        self.rng, self.cfg = rng, cfg
        self.names = cfg['names']
        self.ev = []
        self.p, self.h = p, h
        self.fake = Fake(self.names)
        self.pool = []          # individuals made
        self.inPop = []
        self.rows = {}          # individuals and the row indices that their additions came up with
        self.questions = []
        self.confined = False
        self.zeros = False
        self.many = []

    def log(self, op, **kw):
        e = dict(op=op, **kw)
        self.ev.append(e)
        return e

    def make(self, kind):
        if kind == 'same' and self.pool:
            return self.rng.choice(self.pool).copy()
        values = [self.rng.choice([0, 1, 2, self.rng.randint(0, 99)]) for n in self.names]
        i = Individual(self.p or self.fake, values)
        i.SSE = float(self.rng.choice([self.rng.randint(1, 30), self.rng.randint(1, 9000)]))
        if self.zeros and self.rng.random() < 0.1: i.SSE = 0.0
        if self.pool and kind == 'tie': i.SSE = self.rng.choice(self.pool).SSE
        if kind == 'bad': i.SSE = self.rng.choice([None, np.inf, np.nan, float('inf'), -1.0])
        else: self.pool.append(i)
        return i

    def entry(self, i):
        return dict(s=fit(i), v=vec(i.values))

    #--- Operations ------------------------------------------------------------

    def add(self, kind):
        i = self.make(kind)
        self.log('add', never=False, **self.entry(i))
        d = self.h.add(i)
        if fit(i) != INF:
            self.inPop.append(i)
            d.addCallback(lambda row: self.rows.__setitem__(id(i), (i, row)))

    def never(self, kind):
        i = self.make(kind)
        self.log('add', never=True, **self.entry(i))
        self.h.add(i, neverInPop=True)

    def addx(self, x):
        """One of the few individuals of a generated behaviour."""
        s, v, never = x
        i = Individual(self.fake, [v, 5, 6, 7][:len(self.names)])
        i.SSE = float(s)
        self.log('add', never=never, **self.entry(i))
        self.h.add(i, neverInPop=never)
        if not never: self.inPop.append(i)

    def dropx(self, x):
        i = Individual(self.fake, [x[1], 5, 6, 7][:len(self.names)])
        i.SSE = float(x[0])
        self.log('drop', **self.entry(i))
        self.h.notInPop(i)

    def drop(self, which):
        if not self.inPop: return
        i = self.inPop.pop(self.rng.randrange(len(self.inPop)) if which != 'last' else -1)
        self.log('drop', **self.entry(i))
        self.h.notInPop(i)

    def droprow(self, _):
        """By row index, of something that has no equal."""
        reactor.settle()
        added = [(e['s'], e['v']) for e in self.ev if e['op'] == 'add']
        for i in self.inPop:
            x = self.entry(i)
            if self.rows.get(id(i), (i, None))[1] is not None and added.count((x['s'], x['v'])) == 1: break
        else: return
        self.inPop.remove(i)
        self.log('drop', **x)
        self.h.notInPop(self.rng.choice([int, np.int64])(self.rows[id(i)][1]))

    def dropagain(self, _):
        """One that is not there."""
        i = self.make('new')
        self.pool.remove(i)
        i.SSE = 77777.0
        self.log('drop', **self.entry(i))
        self.h.notInPop(i)

    def bulk(self, n):
        for i in [self.make('new') for k in range(n)]: self.many.append(i)
        self.log('bulk', recs=[self.entry(i) for i in self.many])
        for i in self.many: self.h.add(i, neverInPop=True)
        self.many = []

    def purge(self, _):
        self.log('purge')
        self.h.purgePop()
        self.inPop = []

    def clear(self, _):
        self.log('clear')
        self.h.clear()
        self.inPop = []

    def query(self, how=None, label=None):
        r = self.rng
        how = how or r.choice(['all', 'names', 'slice'])
        label = label or r.choice(['all', 'pop', 'former', 'never'])
        ratio8 = r.choice([8000, 8, 9, 12, 16, 24, 80, 800])
        n = len(self.names)
        cols, a, b, step = [], 0, 0, 1
        if how == 'all': args = []
        elif how == 'names':
            cols = [r.randrange(n) for k in range(r.randint(1, n+1))]
            args = [self.names[k] for k in cols]
            if r.random() < 0.3: args = tuple(args)
        else:
            a, b = sorted([r.randint(0, n), r.randint(0, n)])
            step = r.choice([1, 1, 2])
            args = [a, b, step] if step > 1 or r.random() < 0.3 else [a, b]
            if r.random() < 0.3:
                a, step = 0, 1
                args = [b]
        kw = {dict(pop='inPop', former='notInPop', never='neverInPop')[label]: True} if label != 'all' else {}
        if ratio8 != 8000 or r.random() < 0.3: kw['maxRatio'] = ratio8/8.0
        e = self.log('query', how=how, label=label, ratio8=ratio8, cols=[k+1 for k in cols], a=a, b=b, step=step,
                     rows=[], failed=True)
        def got(XY):
            e['rows'] = [[toInt(x) for x in row] for row in zip(*XY)]
            e['failed'] = False
        self.h.value_vs_SSE(args, **kw).addCallbacks(got, lambda f: None)

    # Those of a population

    def setitem(self, kind):
        k = self.rng.randrange(len(self.p))
        self.replace(k, self.make(kind), 'set')

    def push(self, kind):
        worst = max(range(len(self.p)), key=lambda k: fit(self.p[k]))
        ks = [k for k in range(len(self.p)) if fit(self.p[k]) == fit(self.p[worst])]
        if len(ks) > 1: return self.setitem(kind)
        self.replace(worst, self.make(kind), 'push')

    def replace(self, k, i, how):
        old = self.p[k]
        if fit(old) != INF: self.log('drop', **self.entry(old))
        self.log('add', never=False, **self.entry(i))
        if how == 'set': self.p[k] = i
        else: self.p.push(i)

    def blacklist(self, _):
        i = self.rng.choice(list(self.p))
        if fit(i) != INF: self.log('drop', **self.entry(i))
        i.blacklist()

    def setup(self, _):
        self.log('clear')
        self.p.setup(blank=True)

    def wait(self, _):
        """What there is as soon as waiting for reports is over"""
        def over(_):
            self.log('waited', rows=[dict(s=toInt(row[0]), v=vec(row[1:])) for row in
                                     [self.h[k] for k in range(len(self.h))]])
        self.p.waitForReports().addCallback(over)
        reactor.settle()

    #--- What is to be seen ----------------------------------------------------

    def labelled(self, label):
        got = []
        names = self.names
        self.h.value_vs_SSE(list(names), **{label: True, 'maxRatio': 1e30}).addCallback(got.append)
        reactor.settle()
        return [dict(s=toInt(row[0]), v=[toInt(x) for x in row[1:]]) for row in zip(*got[0])]

    def quiet(self):
        reactor.settle()
        rows = []
        for k in range(len(self.h)):
            row = self.h[k]
            rows.append(dict(s=toInt(row[0]), v=vec(row[1:])))
        again = [vec(v) for v in self.h]
        if again != [row['v'] for row in rows]: rows.append(dict(s=ODD, v=[]))
        self.log('quiet', rows=rows, len=len(self.h), total=int(getattr(self.h, 'N_total', -1)),
                 pop=self.labelled('inPop'), former=self.labelled('notInPop'), never=self.labelled('neverInPop'),
                 members=[self.entry(i) for i in self.p if fit(i) != INF] if self.p else [],
                 confined=self.confined, labels=not rows or rows[0]['s'] > 0)

    def do(self, steps, burst):
        n = 0
        for op, x in steps:
            if op == 'quiet':
                self.quiet()
                n = 0
                continue
            getattr(self, op)(x)
            n += 1
            if n >= burst:
                self.quiet()
                n = 0
            elif self.rng.random() < 0.2: reactor.advance(0)
        self.quiet()


def plainCfg(rng, nmax=None):
    names = rng.choice(NAMES)
    order = sorted(range(len(names)), key=lambda k: names[k])
    return dict(nmax=nmax or rng.choice([1, 2, 3, 4, 6, 8]), nd=len(names), names=names,
                sorted=[k+1 for k in order], pop=False)


def guarded(f, r, cfg, tag):
    try:
        with watchdog(30): f()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        r.log('exc', what=excText(e))
    return {'cfg': cfg, 'ev': r.ev, 'tag': tag}


class P(Population):
    """A population of as few as you like."""

def direct(rng, steps, burst, nmax, tag, sampled=False):
    freshReactor()
    cfg = plainCfg(rng, nmax)
    ade.history.ClosestPairFinder.Np_max = rng.choice([2, 5]) if sampled else 10000
    try:
        r = Roster(rng, cfg, h=History(cfg['names'], **({'N_max': cfg['nmax']} if cfg['nmax'] < 1500 else {})))
        r.zeros = tag == 'query'
        return guarded(lambda: r.do(steps, burst), r, cfg, tag)
    finally: ade.history.ClosestPairFinder.Np_max = 10000


def population(rng, cfg):
    freshReactor()
    abort.restart()
    P.Np_min = cfg['np']
    p = P(lambda v: 0.0, cfg['names'], [(0, 100)]*cfg['nd'], popsize=1)
    p.history = History(cfg['names'], N_max=cfg['nmax'])
    p.setup(blank=True)
    reactor.settle()
    return p

def popCfg(rng):
    Np = rng.choice([4, 5])
    cfg = plainCfg(rng, Np + rng.choice([0, 1, 2, 5]))
    cfg.update(pop=True, np=Np)
    return cfg

def withPopulation(rng, steps, burst, cfg, tag):
    p = population(rng, cfg)
    r = Roster(rng, cfg, h=p.history, p=p)
    return guarded(lambda: r.do(steps, burst), r, cfg, tag), r


#--- Save here, load elsewhere --------------------------------------------------

def second(jobs):
    """Loads populations saved by another process and goes on with them."""
    result = []
    for job in jobs:
        freshReactor()
        abort.restart()
        rng = random.Random(job['seed'])
        r = Roster(rng, job['cfg'])
        r.log('nothing')
        def go():
            kw = {'bounds': [tuple(b) for b in job['bounds']]} if job['bounds'] else {}
            r.p = P.load(job['path'], func=lambda v: 0.0, **kw)
            r.h = r.p.history
            for i in r.p: r.pool.append(i.copy())
            if job['bounds']:
                # Members whose values were changed are recorded as they were
                for m, i in zip(job['members'], r.p):
                    if m['s'] != INF and m['v'] != vec(i.values):
                        r.confined = True
                        r.log('drop', **m)
            r.quiet()
            if not r.confined: r.do(job['steps'], job['burst'])
        result.append(guarded(go, r, job['cfg'], job['tag'])['ev'])
    return result

def elsewhere(scratch, jobs, seed):
    path, out = os.path.join(scratch, 'jobs.json'), os.path.join(scratch, 'events.json')
    with open(path, 'w') as fh: json.dump(jobs, fh)
    env = dict(os.environ, PYTHONHASHSEED=str(seed % 4000000000))
    subprocess.run([sys.executable, os.path.abspath(__file__), path, out], env=env, check=True, timeout=600,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(out) as fh: return json.load(fh)


#--- Analysis of arrays ------------------------------------------------------------

def analysis(rng):
    cfg = plainCfg(rng, 100)
    r = Roster(rng, cfg)
    def go():
        N = rng.choice([1, 2, 3, 5, 8, 13, 30])
        rows = N + rng.choice([0, 3])
        X = np.array([[rng.randint(0, rng.choice([20, 8000]))] + [rng.randint(0, 99) for n in cfg['names']]
                      for k in range(rows)], dtype=rng.choice(['f4', 'f8']))
        K = sorted(rng.sample(range(rows), N), key=lambda k: X[k, 0])
        labels = {k: rng.choice(['pop', 'former', 'never']) for k in K}
        a = Analysis(cfg['names'], X, K if rng.random() < 0.5 else list(K),
                     {k for k in K if labels[k] == 'pop'}, {k for k in K if labels[k] == 'never'})
        before = X.copy(), list(K)
        for k in K:
            e = dict(s=toInt(X[k, 0]), v=vec(X[k, 1:]))
            r.log('add', never=labels[k] == 'never', **e)
            if labels[k] == 'former': r.log('drop', **e)
        class H(object):
            def value_vs_SSE(self, names, **kw): return defer.maybeDeferred(a.value_vs_SSE, names, **kw)
        r.h = H()
        for k in range(8):
            x = rng.random()
            f1, f2 = sorted([rng.randint(0, 8), rng.randint(0, 9)])
            if x < 0.3: r.query()
            else:
                name = 'Kf12' if x < 0.65 else 'Kp12'
                got = [int(j) for j in getattr(a, name)(f1/8.0, f2/8.0)]
                where = {kr: j+1 for j, kr in enumerate(K)}
                r.log('fraction' if name == 'Kf12' else 'portion', s=[toInt(X[j, 0]) for j in K], f1=f1, f2=f2,
                      got=[where.get(j, -1) for j in got])
            if not (np.array_equal(X, before[0]) and K == before[1]): r.log('altered')
    return guarded(go, r, cfg, 'analysis')


#--- Scenarios -----------------------------------------------------------------------

DIRECT = ['add']*6 + ['never']*4 + ['drop']*5 + ['droprow', 'dropagain', 'purge', 'clear'] + ['query']*2
POP = ['setitem']*6 + ['push']*3 + ['never']*4 + ['blacklist']*3 + ['query'] + ['wait']*2 + ['setup']
KINDS = ['new']*5 + ['same']*3 + ['tie']*2 + ['bad']

def someSteps(rng, ops, n):
    bag = [x for x in ops if rng.random() < 0.8] + [ops[0]]
    steps = []
    for k in range(n):
        op = rng.choice(bag)
        if op in ('purge', 'clear', 'setup') and rng.random() < 0.7: op = ops[0]
        steps.append((op, None if op == 'query' else rng.choice(KINDS)))
    return steps

def one(fam, seed):
    rng = random.Random(seed)
    seedAll(seed)
    if fam == 'direct':
        nmax = rng.choice([1, 2, 3, 4, 5, 8]*2 + [1500])
        burst = rng.choice([1, 1, 2, 3]) if nmax > 3 else rng.choice([1, 2, 4])
        return direct(rng, someSteps(rng, DIRECT, rng.choice([6, 15, 30])), burst, nmax, 'direct', rng.random() < 0.3)
    if fam == 'query':
        bag = DIRECT + ['query']*20
        return direct(rng, someSteps(rng, bag, rng.choice([10, 20])), rng.choice([1, 2, 3]), rng.choice([3, 6, 40]), 'query')
    if fam == 'big':
        return direct(rng, someSteps(rng, DIRECT[:-4], 60) , 1, rng.choice([12, 20, 30]), 'big', rng.random() < 0.5)
    if fam == 'pop':
        return withPopulation(rng, someSteps(rng, POP, rng.choice([6, 15, 30])), rng.choice([1, 2, 3]), popCfg(rng), 'pop')[0]
    if fam == 'analysis': return analysis(rng)

def saved(n, seed, part, parts):
    scratch = tempfile.mkdtemp(prefix='roster-')
    try:
        traces, jobs = [], []
        for k in range(n):
            if enough(): break
            if k % parts != part: continue
            rng = random.Random(seed*100003 + k)
            seedAll(seed*100003 + k)
            cfg = popCfg(rng)
            steps = someSteps(rng, POP, rng.choice([6, 15]))
            large = k % 40 == 39
            if large:
                # More than can be counted in a byte
                cfg['nmax'] = 1500
                steps = [('setitem', 'new')]*cfg['np'] + [('bulk', rng.randint(260, 330) if k % 80 == 39 else rng.randint(1050, 1100))] + steps[:4]
            t, r = withPopulation(rng, steps, 2 if not large else 1000, cfg, 'saved')
            traces.append(t)
            if t['ev'][-1]['op'] != 'quiet': continue
            path = os.path.join(scratch, 'p%d.dat' % k)
            r.p.save(path)
            jobs.append((t, dict(path=path, seed=seed+k, cfg=cfg, tag='loaded', burst=rng.choice([1, 2]),
                                 steps=someSteps(rng, POP[:-1], rng.choice([4, 12]) if not large else 2),
                                 members=[r.entry(i) for i in r.p],
                                 bounds=[[10, 60]]*cfg['nd'] if rng.random() < 0.25 else None)))
        if jobs:
            for (t, _), ev in zip(jobs, elsewhere(scratch, [job for _, job in jobs], seed)): t['ev'] += ev
        return traces
    finally: shutil.rmtree(scratch, ignore_errors=True)

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    if fam == 'saved': return saved(n, seed, part, parts)
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(one(fam, seed*100003 + k))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        seedAll(seed*100003 + k)
        steps = [(op, None if op == 'query' else x) for op, x in b if op != 'end']
        traces.append(direct(rng, steps, 3 if k % 2 else 1, 3, 'behaviour'))
    return traces

if __name__ == '__main__':
    import drv_roster
    quietly()
    with open(sys.argv[1]) as fh: jobs = json.load(fh)
    with open(sys.argv[2], 'w') as fh: json.dump(second(jobs), fh)
