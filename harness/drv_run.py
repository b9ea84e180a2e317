"""
Runs real differential evolution under a chosen schedule and records what
Run.tla speaks about.
"""
import contextvars
from base import *
from ade import abort
from ade.population import Population
from ade.de import DifferentialEvolution
from ade.util import msg

MODULE = 'Run'


CALIBRATED = [False]
TARGET = contextvars.ContextVar('target', default=None)


class Fail(Exception): pass


class DE(DifferentialEvolution):
    """
    Remembers, for the evaluation function, which target a challenge is for.
    """
    def challenge(self, kt, kb):
        token = TARGET.set(int(kt) + 1)
        try:
            return DifferentialEvolution.challenge(self, kt, kb)
        finally: TARGET.reset(token)


class PlannedPopulation(Population):
    """
    I{plan} may say, for each target, which base and difference members are
    'randomly' sampled.
    """
    plan = None

    def planned(self):
        """
        The plan, with indices from one, if every target was served from it
        and from nothing else.
        """
        if not self.plan or not len(self.served) == self.Np or any(
                x != {'base', 'difference'} for x in self.served.values()): return []
        return [[int(k)+1 for k in x] for x in self.plan]

    def sample(self, N, *exclude, **kw):
        if self.plan and exclude:
            ks = [int(k) for k in exclude]
            # The target is the one whose planned base is the other, or else
            # comes first
            ts = [t for t in ks if set(ks) - {t} == {self.plan[t][0]}] if N == 2 else ks[:1]
            t = TARGET.get()-1 if TARGET.get() and TARGET.get()-1 in ts else (ts or ks)[0]
            b, x, y = self.plan[t]
            served = self.served.setdefault(t, set())
            if N == 1 and len(ks) == 1:
                served.add('base')
                return b
            if N == 2 and ts:
                served.add('difference')
                return [x, y]
            served.add('something else')
        return Population.sample(self, N, *exclude, **kw)


def makePop(Np, func, names, bounds, **kw):
    cls = type('P', (PlannedPopulation,), {'Np_min': Np, 'Np_max': max(Np, 2)})
    return cls(func, names, bounds, popsize=1, **kw)


class World(object):
    """
    One scenario. Keywords in I{o}: Np, Nd, lo, hi, grid, cr, F, fnum, fden,
    flo, fhi, scale, base, xsse, maxgen, sync, cons, outcomes, picks, abort,
    slow, dup, invalid, histmax.
    """
    def __init__(self, o, seed):
        self.o = o
        self.rng = random.Random(seed)
        self.seed = seed
        self.ev = []
        self.pending = {}       # id -> (deferred, target, values)
        self.waits = []         # slow report callbacks
        self.nextID = 0
        self.ended = False
        self.step = 0
        self.aborted = False
        self.started = set()
        self.results = {}
        self.names = ['p%d' % k for k in range(o['Nd'])]
        self.during = 'run'
        self.heard = []
        self.unit = o.get('unit', UNITS[0])

    def log(self, op, **kw):
        kw['op'] = op
        self.ev.append(kw)

    #--- What ade calls --------------------------------------------------------

    def target(self, values, xSSE):
        """
        The index (from 1) of the member this challenger challenges, or 0 if
        unknown: what the challenge method was called with, if that is known to
        get through to here, or else worked out from the parameters the
        challenger shares with members, or from the limit given.
        """
        t = TARGET.get() or 0
        self.heard.append(t)
        if t and CALIBRATED[0]: return t
        shared = [int(np.sum(np.asarray(i.values) == values)) for i in self.p]
        top = max(shared)
        if top:
            best = [k for k, n in enumerate(shared) if n == top and k+1 not in self.started]
            if len(best) == 1: return best[0] + 1
        if xSSE is not None:
            ks = [k for k, i in enumerate(self.p) if float(i.SSE) == float(xSSE)]
            if len(ks) == 1: return ks[0] + 1
        return 0

    def stale(self, params):
        """A constraint that was replaced by others"""
        self.log('stale')
        return True

    def constraint(self, k):
        c = self.o['cons'][k]
        def f(params):
            v = [params[n] for n in self.names]
            ok = sum(a*x for a, x in zip(c['a'], v)) <= c['b']
            # Only the deciding call is of interest: the first that fails, or
            # the last one
            if not ok or k == len(self.o['cons'])-1:
                t = self.target(np.array(v), None)
                if not ok and t: self.started.add(t)
                self.log('cons', v=vec(v), ok=bool(ok), t=t)
            return ok
        return f

    def func(self, values, xSSE=None):
        ID = self.nextID = self.nextID + 1
        if values is None:
            self.log('none', id=ID)
            if self.o.get('noneHangs'): 
                d = defer.Deferred()
                self.pending[ID] = (d, None, None)
                return d
            self.log('res', id=ID, kind='num', s=0)
            return self.o.get('noneResult', 0.0)
        values = np.array(values)
        t = self.target(values, xSSE)
        if t: self.started.add(t)
        self.log('eval', id=ID, v=vec(values, self.o.get('scale', 1)), t=t,
                 x=-1 if xSSE is None else fit(xSSE, self.unit))
        sync = self.o['sync'] == 'sync' or (
            self.o['sync'] == 'mixed' and self.rng.random() < 0.5)
        if sync:
            return self.give(None, ID, t, values)
        d = defer.Deferred()
        self.pending[ID] = (d, t, values)
        return d

    def give(self, d, ID, t, values):
        """Chooses and hands over the result of evaluation ID."""
        oc = self.o['outcomes']
        kind = oc(self, t) if callable(oc) else oc[self.step % len(oc)]
        self.step += 1
        if t:
            s0 = fit(self.p[t-1], self.unit)
            if s0 in (INF, ODD): s0 = 1000000
        else: s0 = self.rng.randint(1000, 1000000)
        fits = [fit(i, self.unit) for i in self.p]
        top = min([x for x in fits if x < 1e9] or [1000000])
        x = None
        if kind == 'win': x = max(0, s0 - self.rng.choice([1, 2, 7, 100, 1000]))
        elif kind == 'best':
            x = max(0, top - self.rng.randint(1, 50))
        elif kind == 'leap':
            x = int(0.7 * top) - self.rng.randint(1, 50)
            x = max(0, x)
        elif kind == 'lose': x = s0 + self.rng.choice([1, 3, 50, 5000])
        elif kind == 'tie': x = s0
        elif kind == 'zero': x = 0
        if x is not None:
            while kind in ('win', 'lose', 'best', 'leap') and x in self.results.values() and 0 < x < 16000000:
                x += 1 if kind == 'lose' else -1
            self.results[ID] = x
            self.log('res', id=ID, kind='num', s=x)
            y = real(x, self.unit)
            return self.deliver(d, float(y) if x % 2 else np.float64(y))
        self.log('res', id=ID, kind=kind, s=0)
        if kind == 'none': return self.deliver(d, None)
        if kind == 'inf': return self.deliver(d, float('inf'))
        if kind == 'nan': return self.deliver(d, float('nan'))
        if kind == 'neg': return self.deliver(d, self.rng.choice([-1.0, -1E-6, -1E-9, -1E-300, -1E300]))
        if kind in ('raise', 'fail'):
            if d is None: raise Fail("evaluation failed")
            d.errback(Fail("evaluation failed"))

    def deliver(self, d, x):
        if d is None: return x
        d.callback(x)

    def told(self, values, counter, SSE):
        slow = bool(self.o.get('slow'))
        self.log('told', v=vec(values, self.o.get('scale', 1)), s=0, slow=slow)
        if self.o.get('abort') and self.o['abort'][0] == 'callback' and not self.aborted \
           and len(self.ev) > self.o['abort'][1]:
            self.aborted = True
            self.log('abort', kind='callback')
            raise Fail("callback failed")
        if self.o.get('slow'):
            d = defer.Deferred()
            self.waits.append(d)
            return d

    def lockedNow(self):
        n = 0
        for k in range(len(self.p)):
            d = self.p.lock(k)
            if d.called: self.p.release(k)
            else:
                n += 1
                d.cancel()
        return n

    def generation(self, kg):
        self.started = set()
        self.log('gen', k=int(kg), locked=self.lockedNow())

    def done(self, result):
        self.ended = True
        kind = 'pop' if result is self.p else 'failure' if hasattr(result, 'getTraceback') else 'other'
        self.log('end', kind=kind, locked=self.lockedNow())

    #--- What the driver does ----------------------------------------------------

    def members(self):
        return [{'v': vec(i.values, 1), 's': fit(i, self.unit)} for i in self.p]

    def quiet(self, stuck=False):
        reactor.settle()
        self.log('quiet', pop=self.members(), stuck=bool(stuck), waits=len(self.waits))

    def doAbort(self, kind):
        self.aborted = True
        self.during = 'abort'
        self.log('abort', kind=kind)
        for n in range(1 + self.rng.randint(0, 1)):
            if kind == 'key': fakereactor.FakeStandardIO.protocols[-1].dataReceived(b'\n')
            elif kind == 'now': abort.abortNow()
            elif kind == 'pop': self.p.abort()
            elif kind == 'run': self.de.shutdown()
            reactor.settle()
        self.during = 'run'

    def initial(self):
        o, rng = self.o, self.rng
        members = []
        ss = rng.sample(range(2000, 9000000 if not o.get('dup') else 2000+2*o['Np']), o['Np'])
        for k in range(o['Np']):
            while True:
                m = o.get('members')
                if o.get('rows'):
                    v = list(o['rows'][k])
                    break
                v = [rng.randint(-m, m) if m else rng.randint(-(-lo // g), hi // g)*g
                     for lo, hi, g in zip(o['lo'], o['hi'], o['grid'])]
                if any(sum(a*x for a, x in zip(c['a'], v)) > c['b'] for c in o['cons']): continue
                break
            s = 0 if rng.random() < o.get('nil', 0) else ss[k]
            if o.get('dup') and rng.random() < 0.3: s = ss[0]
            bogus = None
            if o.get('invalid') and rng.random() < o['invalid']:
                bogus = rng.choice(['none', 'inf', 'nan'])
            members.append((v, s, bogus))
        if o.get('twins'):
            members[1] = members[0]
        return members

    def build(self):
        o = self.o
        seedAll(self.seed)
        abort.restart()
        cons = [self.constraint(k) for k in range(len(o['cons']))]
        self.p = makePop(o['Np'], self.func, self.names, list(zip(o['lo'], o['hi'])),
                         constraints=[], complaintCallback=None)
        if o.get('histmax'):
            from ade.history import History
            self.p.history = History(self.names, N_max=o['histmax'])
        self.p.plan = o.get('plan')
        self.p.served = {}
        self.p.setup(blank=True, uniform=True)
        reactor.settle()
        for k, (v, s, bogus) in enumerate(self.initial()):
            i = self.p.spawn([float(x) for x in v])
            i.SSE = {None: real(s, self.unit), 'none': None, 'inf': float('inf'), 'nan': float('nan')}[bogus]
            self.p[k] = i
        reactor.settle()
        if self.rng.random() < 0.3: self.p.setConstraints(self.stale)
        self.p.setConstraints(*cons)
        self.p.addCallback(self.told)
        self.cfg = dict(
            np=o['Np'], nd=o['Nd'], lo=o['lo'], hi=o['hi'], cr=o['cr'],
            fnum=o['fnum'], fden=o['fden'], flo=o.get('flo', 0), fhi=o.get('fhi', 0),
            scale=o.get('scale', 1), base=o['base'], xsse=bool(o['xsse']),
            maxgen=o['maxgen'], sync=o['sync'], cons=o['cons'],
            runall=bool(o.get('runall', True)), histall=not o.get('histmax'),
            pop=self.members())
        rb = {0: False, 100: True}.get(o['base'], o['base'] / 100.0)
        self.de = DE(
            self.p, logHandle=None, CR=o['cr'] / 100.0, F=o['F'], maxiter=o['maxgen'],
            randomBase=rb, adaptive=False, xSSE=o['xsse'], bitterEnd=True)

    def pick(self, N):
        """Which of N outstanding things happens next (they are in order of age)."""
        pk = self.o['picks']
        if callable(pk): return pk(self, N)
        x = pk[self.step % len(pk)]
        return 0 if x == 0 else N-1 if x == 1 else self.rng.randrange(N)

    def play(self):
        o = self.o
        ab = o.get('abort')
        if ab and ab[1] < 0 and ab[0] != 'callback': self.doAbort(ab[0])
        self.de(self.generation).addBoth(self.done)
        self.quiet()
        N = 0
        while not self.ended and N < 5000:
            N += 1
            if ab and ab[0] != 'callback' and not self.aborted and N > ab[1]:
                self.doAbort(ab[0])
                self.quiet()
                if self.ended: break
            things = sorted(self.pending) + list(range(-len(self.waits), 0))
            if not things:
                self.quiet(stuck=not self.ended)
                break
            x = things[self.pick(len(things))]
            self.resolve(x)
            self.quiet()
        # Results that come in too late
        while self.pending or self.waits:
            things = sorted(self.pending) + list(range(-len(self.waits), 0))
            self.resolve(things[0])
            self.quiet()
        if self.aborted and self.p.running is False:
            d = self.p.lock(0, 1)
            self.log('lockreq', granted=bool(d.called))
            bag = []
            de = DifferentialEvolution(self.p, logHandle=None, maxiter=2)
            de().addBoth(bag.append)
            self.log('rerun', ended=bool(bag and bag[0] is self.p))
            self.doAbort(self.rng.choice(['key', 'pop', 'run', 'now']))
            self.quiet()

    def resolve(self, x):
        if x < 0:
            self.log('freed')
            self.waits.pop(x).callback(None)
            return
        d, t, values = self.pending.pop(x)
        if values is None:
            self.log('res', id=x, kind='num', s=0)
            d.callback(0.0)
        else: self.give(d, x, t, values)

    def history(self):
        h = self.p.history
        def recs(**kw):
            bag = []
            h.value_vs_SSE(self.names, maxRatio=1E12, **kw).addCallback(bag.append)
            reactor.settle()
            if not bag: return [{'v': [], 's': -1}]     # locked up
            cols = bag[0]
            return [{'s': fit(cols[0][k], self.unit), 'v': [toInt(c[k]) for c in cols[1:]]}
                    for k in range(len(cols[0]))]
        # The history has its own precision
        if self.unit[1] or not 1E-9 < self.unit[0] < 1E9: return
        if len(h) and not h[0][0]: return   # ratios to zero mean nothing
        if not len(h):
            self.log('hist', all=[], inpop=[], former=[], never=[])
            return
        self.log('hist', all=recs(), inpop=recs(inPop=True),
                 former=recs(notInPop=True), never=recs(neverInPop=True))

    def locks(self):
        """With nothing outstanding any more, no index may be locked."""
        self.log('locks', locked=self.lockedNow())

    def run(self):
        freshReactor()
        self.cfg = None
        try:
            with watchdog(20):
                self.build()
                self.play()
                self.locks()
                if self.o.get('scale', 1) == 1: self.history()
        except Hang:
            self.log('hang')
            HANGS.append(self.seed)
        except Exception as e:
            self.log('exc', what=excText(e), during=self.during)
        self.lookahead()
        if self.cfg is not None: self.cfg['plan'] = self.p.planned()
        return {'cfg': self.cfg, 'ev': self.ev, 'tag': self.o.get('tag', '')}

    def lookahead(self):
        """
        Fills in targets that only became known when the challenger showed up
        as a member.
        """
        for n, e in enumerate(self.ev):
            if e['op'] == 'eval' and e['t'] == 0:
                for e2 in self.ev[n+1:]:
                    if e2['op'] == 'gen': break
                    if e2['op'] != 'quiet': continue
                    hits = [k for k, m in enumerate(e2['pop']) if m['v'] == e['v']]
                    if hits:
                        if len(hits) == 1: e['t'] = hits[0] + 1
                        break


#--- Scenario families ------------------------------------------------------------

WIDE = dict(lo=-8000000, hi=8000000, grid=4096)

def opts(rng, **kw):
    Nd = kw.pop('Nd', None) or rng.choice([4, 5, 6])
    space = kw.pop('space', WIDE)
    o = dict(
        Np=rng.choice([4, 5, 6, 7, 8]), Nd=Nd,
        lo=[space['lo']]*Nd, hi=[space['hi']]*Nd, grid=[space['grid']]*Nd,
        cr=50, F=1.0, fnum=1, fden=1, base=rng.choice([0, 0, 100, 40, 70]), xsse=False,
        maxgen=rng.choice([1, 2, 3]), sync='async', cons=[],
        outcomes=lambda w, t: w.rng.choice(['win', 'win', 'lose', 'lose', 'tie']),
        picks=lambda w, N: w.rng.randrange(N), unit=rng.choice(UNITS))
    f = kw.pop('f', None) or rng.choice(['one', 'half', 'pair'])
    if f == 'half': o.update(F=0.5, fnum=1, fden=2)
    elif f == 'pair': o.update(F=(0.5, 0.5), fnum=1, fden=2)
    elif f == 'two': o.update(F=2.0, fnum=2, fden=1)
    o.update(kw)
    return o

def picker(rng):
    """A completion order: oldest first, newest first, random, or starving one."""
    kind = rng.choice(['old', 'new', 'any', 'starve', 'alt'])
    if kind == 'old': return lambda w, N: 0
    if kind == 'new': return lambda w, N: N-1
    if kind == 'any': return lambda w, N: w.rng.randrange(N)
    if kind == 'alt': return lambda w, N: 0 if w.step % 2 else N-1
    return lambda w, N: min(1, N-1)

def weights(rng, *kinds):
    kinds = [k for k in kinds for n in range(rng.randint(1, 4))]
    return lambda w, t: w.rng.choice(kinds)

def replays(rng, beh):
    """Behaviours of the specification."""
    for b in beh:
        plan = []
        for S in b['need']:
            S = [k-1 for k in S]
            rng.shuffle(S)
            plan.append(S)
        order = {t: n for n, (t, won) in enumerate(b['fin'])}
        wins = {t: won for t, won in b['fin']}
        def pick(w, N, order=order):
            ts = [w.pending[ID][1] for ID in sorted(w.pending)]
            if not ts: return 0
            return min(range(len(ts)), key=lambda k: order.get(ts[k], 0))
        o = opts(rng, Np=len(plan), maxgen=1, base=100, plan=plan, picks=pick,
                 outcomes=lambda w, t, wins=wins: 'win' if wins.get(t) else 'lose')
        o['tag'] = 'behaviour %s' % (b,)
        yield o

def famOrder(rng, n, beh):
    """Completion orders and outcomes; the schedules come from the specification."""
    for k in range(n):
        o = opts(rng, maxgen=rng.choice([1, 2, 3, 4]), picks=picker(rng),
                 base=rng.choice([0, 0, 100, 100, 40]),
                 outcomes=weights(rng, 'win', 'lose', 'tie'))
        o['tag'] = 'order'
        if o['fden'] == 2: o['maxgen'] = min(o['maxgen'], 3)
        if k % 16 == 15:
            # Many members, of which each challenge is known to use three
            Np = rng.choice([16, 20, 24])
            o.update(Np=Np, base=100, maxgen=rng.choice([1, 2]), plan=[
                rng.sample([j for j in range(Np) if j != t], 3) for t in range(Np)])
        yield o
    yield from replays(rng, beh)

def famParallel(rng, n, beh):
    """Which challenges are under way at the same time."""
    for k in range(n):
        Np = rng.choice([4, 5, 6, 8, 10, 12, 16])
        plan = []
        hub = rng.randrange(Np)
        for t in range(Np):
            others = [j for j in range(Np) if j != t]
            S = rng.sample(others, 3)
            # Some plans have most of them use the same member, or neighbours
            if k % 4 == 1 and hub not in S and hub != t and rng.random() < 0.7: S[rng.randrange(3)] = hub
            if k % 4 == 2: S = [(t+j) % Np for j in rng.choice([(1, 2, 3), (-1, -2, 1), (-1, -2, -3)])]
            rng.shuffle(S)
            plan.append(S)
        o = opts(rng, Np=Np, maxgen=rng.choice([1, 2, 3]), base=100, plan=plan, picks=picker(rng), f='one',
                 Nd=4, sync='async', slow=k % 3 == 2, outcomes=weights(rng, 'win', 'lose', 'best', 'tie', 'none'))
        if rng.random() < 0.3: o['cons'] = linear(rng, 1, o['Nd'], WIDE['lo'], WIDE['hi']-WIDE['lo'])
        if o['slow']:
            # Report callbacks that mostly outlast the evaluations
            o['maxgen'] = rng.choice([2, 3])
            o['outcomes'] = weights(rng, 'leap', 'win', 'lose')
            late = rng.choice([0, 0, 0.2, 0.5])
            o['picks'] = lambda w, N, late=late: w.rng.randrange(N) if w.rng.random() < late or not w.pending \
                         else w.rng.randrange(len(w.pending))
        o['tag'] = 'parallel'
        yield o
    yield from replays(rng, beh)

def famRecipe(rng, n, beh):
    for k in range(n):
        m = k % 9
        if m == 0:   # extremes of the crossover rate
            o = opts(rng, cr=0, Nd=rng.choice([3, 4]), maxgen=3, base=rng.choice([0, 100]))
        elif m == 1:
            o = opts(rng, cr=100, xsse=True, maxgen=2, outcomes=weights(rng, 'win', 'lose'))
        elif m in (2, 3):   # overshooting narrow bounds
            span = rng.choice([8, 40, 200])
            off = rng.choice([0, -1000, 5000, -span//2])
            o = opts(rng, space=dict(lo=off, hi=off+span, grid=1), xsse=True, Nd=rng.choice([3, 6]),
                     f=rng.choice(['one', 'two']), cr=rng.choice([50, 80, 100]), maxgen=3,
                     outcomes=weights(rng, 'win', 'lose'))
        elif m == 4:  # rate in between
            o = opts(rng, cr=rng.choice([20, 80]), Np=8, maxgen=40, f='one', Nd=rng.choice([3, 4, 5]), xsse=True,
                     outcomes=weights(rng, 'lose'), base=rng.choice([0, 100, 40, 70]))
        elif m == 5:
            Nd = rng.choice([3, 3, 12])
            o = opts(rng, cr=0, Np=8, Nd=Nd, maxgen=30 if Nd == 3 else 60, f='one', outcomes=weights(rng, 'lose'))
        elif m == 6:  # real F
            lo, hi = rng.choice([(300, 700), (500, 1000), (100, 200), (800, 1000)])
            o = opts(rng, space=dict(lo=-100000, hi=100000, grid=1), maxgen=2, cr=rng.choice([50, 100]),
                     xsse=True, Nd=4, outcomes=weights(rng, 'lose'))
            o.update(F=(lo/1000.0, hi/1000.0), fden=0, flo=lo, fhi=hi, scale=1024)
            o['lo'] = [-100000]*4; o['hi'] = [100000]*4
            o['small'] = True
        else:  # base selection; with F of one the base could be mistaken for another
            o = opts(rng, base=rng.choice([0, 0, 10, 25, 50]), Np=rng.choice([6, 8]), maxgen=4,
                     sync=rng.choice(['async', 'sync']), f=rng.choice(['half', 'half', 'two', 'pair', 'one']),
                     outcomes=weights(rng, 'win', 'lose', 'best'))
        o['tag'] = 'recipe %d' % m
        yield o
    for b in beh:
        o = opts(rng, Np=4, Nd=2, cr=b['cr'], f={1: 'one', 2: 'two'}[b['f']], lo=b['lo'], hi=b['hi'],
                 rows=b['rows'], base=rng.choice([0, 100]), maxgen=3, xsse=True,
                 outcomes=weights(rng, 'win', 'lose', 'lose'), picks=picker(rng))
        o['tag'] = 'behaviour %s' % (b,)
        yield o

def famReplace(rng, n, beh):
    for k in range(n):
        o = opts(rng, sync=rng.choice(['async', 'async', 'sync', 'mixed']), picks=picker(rng),
                 outcomes=weights(rng, 'win', 'lose', 'tie', 'zero', 'none', 'inf', 'nan', 'best'),
                 dup=rng.random() < 0.2, invalid=rng.choice([0, 0, 0.3]), twins=rng.random() < 0.2)
        if o['sync'] == 'mixed' and o['base'] == 0: o['base'] = 100
        if o['dup'] or o['invalid'] or o['twins']: o['xsse'] = False
        o['tag'] = 'replace'
        yield o

def linear(rng, N, Nd, off, span):
    """Constraints that about half of all vectors satisfy, and some satisfy all of."""
    cons = []
    for j in range(N):
        a = [rng.choice([-1, 0, 1, 2]) for d in range(Nd)]
        mid = sum(x*(off + span//2) for x in a)
        cons.append({'a': a, 'b': mid + rng.choice([0, span//4, span//2] if N == 1 else [span//4, span//2])})
    return cons

def famBounds(rng, n, beh):
    for k in range(n):
        Nd = rng.choice([2, 3, 4])
        span = rng.choice([6, 30, 100, 1000])
        off = rng.choice([0, -1000, 100000, -span//2, -span])
        cons = linear(rng, rng.choice([0, 1, 1, 2]), Nd, off, span)
        o = opts(rng, space=dict(lo=off, hi=off+span, grid=1), Nd=Nd, xsse=True, cons=cons,
                 f=rng.choice(['one', 'two']), cr=rng.choice([0, 50, 80, 100]), maxgen=3,
                 sync=rng.choice(['async', 'sync']), picks=picker(rng), base=100,
                 outcomes=weights(rng, 'win', 'lose'))
        o['tag'] = 'bounds'
        yield o

def famFinish(rng, n, beh):
    for k in range(n):
        o = opts(rng, sync=rng.choice(['async', 'sync', 'mixed']), picks=picker(rng),
                 Np=rng.choice([4, 5, 6, 10]), maxgen=rng.choice([1, 2, 4]),
                 outcomes=weights(rng, 'win', 'lose', 'tie', 'none', 'inf', 'nan', 'best'),
                 slow=rng.random() < 0.5, xsse=rng.random() < 0.3)
        if rng.random() < 0.3:
            o['histmax'] = o['Np'] + rng.choice([0, 1, 3])
            # Making room in the history takes time
            if o['sync'] == 'sync': o['sync'] = 'mixed'
        if o['sync'] == 'mixed' and o['base'] == 0: o['base'] = 100
        if rng.random() < 0.4: o['cons'] = linear(rng, rng.choice([1, 1, 2]), o['Nd'], WIDE['lo'], WIDE['hi']-WIDE['lo'])
        o['tag'] = 'finish'
        yield o

ABORTS = ['key', 'now', 'pop', 'run', 'callback']

def famAbort(rng, n, beh):
    for k in range(n):
        kind = ABORTS[k % 5]
        o = opts(rng, sync=rng.choice(['async', 'async', 'async', 'mixed']), picks=picker(rng),
                 Np=rng.choice([4, 5, 6, 8]), maxgen=3, runall=False, f='one',
                 outcomes=weights(rng, 'win', 'lose', 'best', 'none'), slow=rng.random() < 0.3,
                 abort=(kind, rng.choice([-1, 0, 0, 1, 2, 3, 5, 8])), base=rng.choice([100, 0, 40]),
                 xsse=rng.random() < 0.3, noneHangs=rng.random() < 0.2, noneResult=rng.choice([0.0, 1.0, None, float('inf')]))
        if kind == 'callback': o['abort'] = (kind, rng.choice([0, 10, 20, 40]))
        if o['sync'] == 'mixed' and o['base'] == 0: o['base'] = 100
        o['tag'] = 'abort %s %d' % o['abort']
        yield o

FATAL = ['neg', 'raise', 'fail']

def famFatal(rng, n, beh):
    for k in range(n):
        at = rng.randrange(0, 14)
        kinds = [rng.choice(FATAL) for j in range(3)]
        many = rng.random() < 0.3
        def outcomes(w, t, at=at, kinds=kinds, many=many):
            if w.step == at or (many and w.step > at and w.step < at+3):
                return kinds[w.step - at]
            return w.rng.choice(['win', 'lose', 'best', 'none'])
        o = opts(rng, sync=rng.choice(['async', 'async', 'sync', 'mixed']), picks=picker(rng),
                 Np=rng.choice([4, 5, 6, 8]), maxgen=3, runall=False, f='one', outcomes=outcomes,
                 base=100, xsse=rng.random() < 0.3)
        o['tag'] = 'fatal at %d' % at
        yield o

def famLimit(rng, n, beh):
    for k in range(n):
        o = opts(rng, xsse=bool(k % 2), picks=picker(rng), sync=rng.choice(['async', 'async', 'sync']),
                 outcomes=weights(rng, 'win', 'lose', 'tie', 'inf', 'none', 'nan'),
                 Nd=rng.choice([5, 6, 8]), invalid=rng.choice([0, 0, 0.3]))
        if k % 5 == 4:
            # Members that cannot be improved on
            o['outcomes'] = weights(rng, 'win', 'lose', 'zero', 'tie')
            o['nil'] = 0.3
        o['tag'] = 'limit'
        yield o

FAMILIES = dict(order=famOrder, parallel=famParallel, recipe=famRecipe, replace=famReplace, bounds=famBounds,
                finish=famFinish, abort=famAbort, fatal=famFatal, limit=famLimit)


def scenarios(fam, n, seed, beh):
    rng = random.Random(seed)
    for k, o in enumerate(FAMILIES[fam](rng, n, beh)):
        if o.pop('small', None):
            # members within +-250 so that TLC's arithmetic fits
            o['lo'] = [-100000]*o['Nd']; o['hi'] = [100000]*o['Nd']
            o['members'] = 250
        yield o, seed*100003 + k


def calibrate():
    """
    Finds out if the target given to the challenge method can be seen by the
    evaluation function, by comparing it with the target worked out from the
    parameters where that is certain.
    """
    for seed in range(3):
        rng = random.Random(seed)
        o = opts(rng, Np=6, Nd=6, cr=0, maxgen=2, f='one', base=100,
                 outcomes=lambda w, t: 'lose', picks=lambda w, N: w.rng.randrange(N))
        w = World(o, seed)
        w.run()
        if w.heard != [e['t'] for e in w.ev if e['op'] == 'eval'] or 0 in w.heard: return
    CALIBRATED[0] = True


def drive(fam, n, seed, beh, part=0, parts=1):
    traces = []
    calibrate()
    for k, (o, s) in enumerate(scenarios(fam, n, seed, beh)):
        if enough(): break
        if k % parts != part: continue
        traces.append(World(o, s).run())
    return traces
