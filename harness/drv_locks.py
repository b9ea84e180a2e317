"""Requests and releases locks on the indices of populations as Locks.tla describes."""
from base import *
from ade import abort
from ade.population import Population

MODULE = 'Locks'


class Locks(object):
    def __init__(self, rng, Np):
        self.rng = rng
        self.ev = []
        self.N = 0
        freshReactor()
        abort.restart()
        cls = type('P', (Population,), {'Np_min': Np})
        self.p = cls(lambda v: 0.0, ['a', 'b'], [(0, 1), (0, 1)], popsize=1)
        self.p.setup(blank=True)
        reactor.settle()
        self.held = {}          # granted and not released
        self.waiting = set()
        self.eager = {}         # what is to be done as soon as a request is granted
        self.cfg = dict(n=Np)
        self.aborted = False

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def lock(self, ix, then=None):
        self.N += 1
        ID = self.N
        twice = len(set(ix)) < len(ix)
        self.log('lock', id=ID, ix=list(ix))
        self.waiting.add(ID)
        refused = False
        try:
            d = self.p.lock(*ix)
        except ValueError:
            refused = True
            self.log('refuse', id=ID, twice=twice)
            self.waiting.discard(ID)
        else: d.addCallback(self.granted, ID, ix, then)
        self.log('asked', twice=twice, refused=refused)

    def granted(self, _, ID, ix, then):
        self.log('grant', id=ID)
        self.waiting.discard(ID)
        self.held[ID] = ix
        if then == 'release': self.release(ID)
        elif then == 'lock' and self.N < 60: self.lock(list(ix))

    def release(self, ID):
        if ID not in self.held: return
        ix = self.held.pop(ID)
        self.log('release', id=ID)
        self.p.release(*ix)

    def abort(self):
        self.log('abort')
        self.aborted = True
        self.p.abort()

    def quiet(self):
        reactor.settle(0.0)
        self.log('quiet')

    def do(self, op, x):
        if op == 'lock': self.lock(x)
        elif op == 'lockthen': self.lock(x[0], x[1])
        elif op == 'release':
            if x[0] in self.held: self.release(x[0])
            elif self.held: self.release(self.rng.choice(sorted(self.held)))
        elif op == 'abort': self.abort()
        self.quiet()

    def finish(self):
        """Every holder releases, and everybody gets their turn."""
        for k in range(500):
            if not self.held: break
            self.release(self.rng.choice(sorted(self.held)))
            self.quiet()
        if not self.aborted:
            n = sum(1 for d in getattr(self.p, 'dLocks', []) if d.locked)
            self.log('locked', n=n)


def scenario(rng, Np, steps, tag):
    r = None
    try:
        with watchdog(20):
            r = Locks(rng, Np)
            for op, x in steps: r.do(op, x)
            r.finish()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        if r is None: return {'cfg': None, 'ev': [dict(op='exc', what=excText(e))], 'tag': tag}
        r.log('exc', what=excText(e))
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}

def randomSteps(rng, Np):
    steps = []
    aborts = rng.random() < 0.15
    for k in range(rng.choice([5, 12, 30, 60])):
        x = rng.random()
        ix = rng.sample(range(Np), rng.choice([1, 1, 2, 3, 4][:Np+1]))
        if x < 0.03: ix = ix + [rng.choice(ix)]
        if x < 0.45: steps.append(('lock', ix))
        elif x < 0.6: steps.append(('lockthen', (ix, rng.choice(['release', 'lock']))))
        elif aborts and x < 0.66: steps.append(('abort', None))
        else: steps.append(('release', (0,)))
    return steps

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        Np = rng.choice([4, 4, 5, 7])
        traces.append(scenario(rng, Np, randomSteps(rng, Np), 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        steps = [(op, x) for op, x in b if op != 'end']
        if k % 7 == 0: steps.insert(rng.randrange(len(steps)+1), ('abort', None))
        for j, (op, x) in enumerate(steps):
            if op == 'lock' and rng.random() < 0.5: steps[j] = (op, x[::-1])
        traces.append(scenario(rng, 4, steps, 'behaviour'))
    return traces
