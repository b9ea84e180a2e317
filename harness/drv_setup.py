"""
Sets up real populations under a chosen order and pattern of results and
records what Setup.tla speaks about.
"""
import tempfile
from base import *
from ade import abort
from ade.population import Population
from ade.constraints import Constraints
from ade.de import DifferentialEvolution

MODULE = 'Setup'


class Fail(Exception): pass


class World(object):
    """
    Keywords in I{o}: Np, Nd, par, tries, bounds, cons (list of (a, b)), form,
    uniform, blank, sync, outcomes, picks, abort, again.
    """
    def __init__(self, o, seed):
        self.o = o
        self.rng = random.Random(seed)
        self.seed = seed
        self.ev = []
        self.vids = {}
        self.pending = {}
        self.nextID = 0
        self.step = 0
        self.used = set()
        self.evals = {}
        self.got = {}
        self.aborted = False
        self.fired = False
        self.names = ['a%d' % k for k in range(o['Nd'])]
        self.rng.shuffle(self.names)
        self.p = None
        self.unit = o.get('unit', UNITS[0])

    def log(self, op, **kw):
        # A set-up that never ends is known well enough by then
        if self.nextID > 1000 and op != 'hang': return
        kw['op'] = op
        self.ev.append(kw)

    def vid(self, values):
        key = tuple(float(x) for x in values)
        return self.vids.setdefault(key, len(self.vids) + 1)

    def members(self):
        return [{'v': self.vid(i.values), 's': fit(i, self.unit)} for i in self.p]

    #--- What ade calls --------------------------------------------------------

    def satisfied(self, values):
        return all(sum(x*y for x, y in zip(a, values)) <= b for a, b in self.o['cons'])

    def raw(self, k):
        a, b = self.o['cons'][k]
        def f(params):
            names = set(params) == set(self.names)
            v = [params.get(n, 0) for n in self.names]
            ok = bool(sum(x*y for x, y in zip(a, v)) <= b)
            if self.o.get('impossible') is not None and self.nextID >= self.o['impossible']: ok = False
            self.log('cons', vid=self.vid(v), k=k+1, ok=ok, names=names)
            return ok
        return f

    def constraints(self):
        fs = [self.raw(k) for k in range(len(self.o['cons']))]
        form = self.o['form']
        if form == 'single' and len(fs) == 1: return fs[0]
        if form == 'tuple': return tuple(fs)
        if form == 'object':
            cls = type('C', (Constraints,), dict(
                {'m%d' % k: staticmethod(f) for k, f in enumerate(fs)},
                registry={'m%d' % k: [list(self.names), None] for k in range(len(fs))}))
            return cls()
        if form == 'appended':
            c = type('C', (Constraints,), {'registry': {}})()
            for f in fs: c.append(f)
            return c
        return fs

    def stale(self, params):
        """A constraint that was replaced by others"""
        self.log('stale')
        return True

    def func(self, values, xSSE=None):
        ID = self.nextID = self.nextID + 1
        if values is None:
            self.log('none', id=ID)
            return 0.0
        values = np.array(values)
        ok = self.satisfied(values)
        if self.o.get('impossible') is not None and ID > self.o['impossible']: ok = False
        self.evals[ID] = self.vid(values)
        self.log('eval', id=ID, vid=self.vid(values), v=[int(round(x*1000)) for x in values], sat=bool(ok),
                 x=-1 if xSSE is None else 0)
        sync = self.o['sync'] == 'sync' or (self.o['sync'] == 'mixed' and self.rng.random() < 0.5)
        if sync: return self.give(None, ID)
        d = defer.Deferred()
        self.pending[ID] = d
        return d

    def give(self, d, ID):
        oc = self.o['outcomes']
        kind = oc(self) if callable(oc) else oc[self.step % len(oc)]
        self.step += 1
        x = 0
        if kind == 'num':
            while True:
                x = self.rng.choice([self.rng.randint(0, 50), self.rng.randint(0, 9000000)])
                if self.o.get('nil') and self.rng.random() < 0.2: x = 0
                if x not in self.used: break
            self.used.add(x)
            self.got[x] = self.evals[ID]
        self.log('res', id=ID, kind=kind, s=x, pop=self.members())
        if kind == 'num': 
            y = real(x, self.unit)
            y = self.rng.choice([float, np.float64, int if y == int(y) else float])(y)
        elif kind == 'none': y = None
        elif kind == 'inf': y = float('inf')
        elif kind == 'nan': y = float('nan')
        elif kind == 'neg': y = self.rng.choice([-1, -1E-3, -100.0, -1E-9, -1E-300, -1E300])
        else:
            if d is None: raise Fail("evaluation failed")
            d.errback(Fail("evaluation failed"))
            return
        if d is None: return y
        d.callback(y)

    def told(self, values, counter, SSE):
        self.log('told', v=self.vid(values))
        ab = self.o.get('abort')
        if ab and ab[0] == 'callback' and not self.aborted and self.nextID > ab[1]:
            self.aborted = True
            self.log('abort', kind='callback', pop=self.members())
            raise Fail("callback failed")

    def done(self, result):
        self.fired = True
        failed = hasattr(result, 'getTraceback')
        self.log('done', result=result is True, failed=failed, pop=self.members())

    #--- What the driver does ----------------------------------------------------

    def quiet(self):
        reactor.settle()
        self.log('quiet', pop=self.members(), running=self.p.running is not False)

    def doAbort(self, kind):
        self.aborted = True
        self.log('abort', kind=kind, pop=self.members())
        for n in range(1 + self.rng.randint(0, 1)):
            if kind == 'key': fakereactor.FakeStandardIO.protocols[-1].dataReceived(b'\n')
            elif kind == 'now':
                abort.abortNow()
                reactor.settle()
            elif kind == 'pop': self.p.abort()
        self.quiet()

    def build(self):
        o = self.o
        seedAll(self.seed)
        abort.restart()
        cls = type('P', (Population,), {
            'Np_min': o['Np'], 'Np_max': max(2, o['Np']), 'N_maxParallel': o['par'], 'maxTries': o['tries']})
        kw = {}
        globals()['P'] = cls    # so that it can be saved
        if o['form'] != 'set': kw['constraints'] = self.constraints()
        elif self.rng.random() < 0.5: kw['constraints'] = [self.stale]
        self.p = cls(self.func, self.names, o['bounds'], popsize=1, **kw)
        if o['form'] == 'set':
            if self.rng.random() < 0.5: self.p.setConstraints(self.stale, self.stale)
            self.p.setConstraints(*self.constraints())
        self.p.addCallback(self.told)
        self.cfg = dict(
            np=o['Np'], nd=o['Nd'], par=o['par'], tries=o['tries'],
            lo=[int(round(b[0]*1000)) for b in o['bounds']],
            hi=[int(round(b[1]*1000)) for b in o['bounds']], ncons=len(o['cons']))

    def once(self, blank):
        o = self.o
        ab = o.get('abort')
        self.fired = False
        if ab and ab[0] != 'callback' and ab[1] < 0 and not self.aborted: self.doAbort(ab[0])
        self.log('setup', blank=bool(blank))
        kw = {}
        if blank: kw['blank'] = True
        if o['uniform']: kw['uniform'] = True
        self.p.setup(**kw).addBoth(self.done)
        N = 0
        self.quiet()
        while self.pending and N < 500:
            N += 1
            if ab and ab[0] != 'callback' and not self.aborted and N > ab[1]:
                self.doAbort(ab[0])
                if not self.pending: break
            ID = sorted(self.pending)[o['picks'](self, len(self.pending))]
            if ID is not None:
                self.give(self.pending.pop(ID), ID)
            self.quiet()

    def reload(self):
        """Saves the population and goes on with what is loaded."""
        path = os.path.join(tempfile.mkdtemp(dir='.'), 'p.dat')
        self.p.save(path)
        abort.restart()
        self.p = type(self.p).load(path, func=self.func)
        self.p.addCallback(self.told)
        reactor.settle()
        self.aborted = False
        self.o.pop('abort', None)
        self.log('loaded')

    def history(self):
        h = self.p.history
        def recs(**kw):
            bag = []
            h.value_vs_SSE([], maxRatio=1E30, **kw).addCallback(bag.append)
            reactor.settle()
            if not bag: return [{'v': -1, 's': -1}]
            cols = bag[0]
            names = sorted(self.names)
            result = []
            near = {}
            for key, v in self.vids.items(): near.setdefault(tuple(np.float32(x) for x in key), set()).add(v)
            for k in range(len(cols[0])):
                values = dict(zip(names, [c[k] for c in cols[1:]]))
                SSE = fit(cols[0][k], self.unit)
                # Several vectors may be one in the history's precision
                vs = near.get(tuple(values[n] for n in self.names), {-1})
                result.append({'v': self.got[SSE] if self.got.get(SSE) in vs else min(vs), 's': SSE})
            return result
        if len(h) and not h[0][0]: return
        # The history has its own precision
        if self.unit[1] or not 1E-9 < self.unit[0] < 1E9: return
        self.log('hist', all=recs(), inpop=recs(inPop=True), total=int(h.N_total), max=int(h.N_max))

    def run(self):
        freshReactor()
        self.cfg = None
        try:
            with watchdog(20):
                self.build()
                self.once(self.o['blank'])
                self.history()
                for again in self.o.get('again', []):
                    if self.o.get('reload'): self.reload()
                    self.once(again)
                    self.history()
                if self.p.running is False:
                    bag = []
                    DifferentialEvolution(self.p, logHandle=None, maxiter=2)().addBoth(bag.append)
                    self.log('rerun', ended=bool(bag and bag[0] is self.p))
            if self.nextID > 1000: raise Hang
        except Hang:
            self.log('hang')
            HANGS.append(self.seed)
        except Exception as e:
            self.log('exc', what=excText(e))
        return {'cfg': self.cfg, 'ev': self.ev, 'tag': self.o.get('tag', '')}


def opts(rng, **kw):
    Nd = kw.pop('Nd', None) or rng.choice([1, 2, 3, 5])
    bounds = []
    for k in range(Nd):
        lo = rng.choice([0, -5, 100, -1000, 7])
        bounds.append((lo, lo + rng.choice([1, 2, 10, 1000])))
    cons = []
    for k in range(rng.choice([0, 0, 1, 1, 2, 3])):
        a = [rng.choice([-1, 0, 1, 2]) for d in range(Nd)]
        mid = sum(x*(lo+hi)/2.0 for x, (lo, hi) in zip(a, bounds))
        span = max(hi-lo for lo, hi in bounds)
        cons.append((a, mid + span*rng.choice([0, 0.1, 0.3])))
    o = dict(Np=rng.choice([4, 5, 6, 8, 12, 20]), Nd=Nd, par=rng.choice([1, 2, 3, 5, 12]),
             tries=2000, bounds=bounds, cons=cons,
             form=rng.choice(['list', 'single', 'tuple', 'object', 'appended', 'set']),
             uniform=rng.random() < 0.5, blank=False,
             sync=rng.choice(['async', 'async', 'sync', 'mixed']),
             outcomes=lambda w: 'num', picks=picker(rng), unit=rng.choice(UNITS))
    o.update(kw)
    return o

def picker(rng):
    kind = rng.choice(['old', 'new', 'any', 'second'])
    if kind == 'old': return lambda w, N: 0
    if kind == 'new': return lambda w, N: N-1
    if kind == 'second': return lambda w, N: min(1, N-1)
    return lambda w, N: w.rng.randrange(N)

def mix(rng, *kinds):
    bag = ['num']*rng.choice([2, 4, 8]) + [k for k in kinds for n in range(rng.randint(0, 2))]
    return lambda w: w.rng.choice(bag)

BOGUS = ['none', 'inf', 'nan']

def famFill(rng, n, beh):
    """Patterns of valid and invalid results."""
    for k in range(n):
        o = opts(rng, outcomes=mix(rng, *BOGUS), blank=k % 10 == 9)
        if k % 5 == 4: o['again'] = [rng.random() < 0.3 for j in range(rng.choice([1, 2]))]
        o['nil'] = k % 3 == 0
        if k % 7 == 6:
            # invalid ones at the very end
            last = o['Np']
            o['outcomes'] = lambda w, last=last: w.rng.choice(['none', 'inf', 'nan', 'num']) \
                            if w.step >= last-2 else 'num'
        o['tag'] = 'fill'
        yield o
    for b in beh:
        state = {'n': 0}
        steps = b['steps']
        def pick(w, N, state=state, steps=steps):
            while state['n'] < len(steps) and steps[state['n']][1] == 'abort':
                state['n'] += 1
                if not w.aborted: w.doAbort('pop')
            k = steps[state['n']][0] if state['n'] < len(steps) else 0
            return min(k, N-1)
        def outcome(w, state=state, steps=steps):
            kind = steps[state['n']][1] if state['n'] < len(steps) else 'good'
            state['n'] += 1
            return {'good': 'num', 'bad': w.rng.choice(BOGUS)}.get(kind) or w.rng.choice(['neg', 'raise', 'fail'])
        o = opts(rng, Np=b['np'], par=b['par'], sync='async', picks=pick, outcomes=outcome)
        o['tag'] = 'behaviour %s' % (steps,)
        yield o

def famConform(rng, n, beh):
    """Bounds, constraint forms, and constraints that cannot be satisfied."""
    for k in range(n):
        o = opts(rng, outcomes=mix(rng, 'inf'))
        while not o['cons'] and k % 4: o = opts(rng, outcomes=mix(rng, 'inf'))
        if k % 3 == 0:
            o['tries'] = rng.choice([5, 20])
            if o['cons']: o['impossible'] = rng.choice([0, 0, 1, 3, o['Np']-1])
            else: o['tries'] = 2000
        if k % 11 == 10: o['blank'] = True
        if k % 5 == 4: o['again'] = [rng.random() < 0.3]
        o['tag'] = 'conform %s' % o['form']
        yield o

def famAbort(rng, n, beh):
    for k in range(n):
        kind = ['key', 'now', 'pop', 'callback'][k % 4]
        o = opts(rng, outcomes=mix(rng, *(BOGUS + ['num'])), sync=rng.choice(['async', 'async', 'mixed']),
                 abort=(kind, rng.choice([-1, 0, 1, 2, 3, 5, 8])))
        if k % 6 == 5: o['again'] = [rng.random() < 0.3]
        if k % 6 == 2:
            o.update(cons=[], form='list', again=[rng.random() < 0.3], reload=True, abort=(kind, rng.choice([1, 2, 3, 5])))
        if kind == 'callback': o['abort'] = (kind, rng.choice([0, 0, 1, 3, 6]))
        o['tag'] = 'abort %s %d' % o['abort']
        yield o

def famFatal(rng, n, beh):
    for k in range(n):
        at = rng.randrange(0, 12)
        kinds = [rng.choice(['neg', 'raise', 'fail']) for j in range(3)]
        many = rng.random() < 0.3
        def outcome(w, at=at, kinds=kinds, many=many):
            if w.step == at or (many and at < w.step < at+3): return kinds[w.step-at]
            return w.rng.choice(['num', 'num', 'num', 'num', 'inf'])
        o = opts(rng, outcomes=outcome)
        if k % 6 == 5: o['again'] = [False]
        if k % 6 == 2: o.update(cons=[], again=[rng.random() < 0.3], reload=True, form='list')
        o['tag'] = 'fatal at %d' % at
        yield o

FAMILIES = dict(fill=famFill, conform=famConform, abort=famAbort, fatal=famFatal)


def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed)
    traces = []
    for k, o in enumerate(FAMILIES[fam](rng, n, beh)):
        if enough(): break
        if k % parts != part: continue
        traces.append(World(o, seed*100003 + k).run())
    return traces
