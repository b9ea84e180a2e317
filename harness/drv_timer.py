"""Times parts of evaluations by a clock of its own, as Timer.tla describes."""
import time

class Clock(object):
    now = None

def timed(real):
    """A clock function that reads the driver's own clock when there is one"""
    def read(): return real() if Clock.now is None else 1000000.0 + Clock.now
    return read

for name in ('time', 'monotonic', 'perf_counter'):
    setattr(time, name, timed(getattr(time, name)))

import pickle
from base import *
from ade.util import EvalTimer
from twisted.python.failure import Failure

MODULE = 'Timer'


class Parts(object):
    def __init__(self, rng, k):
        self.rng = rng
        self.k = k
        self.timer = EvalTimer(k)
        self.calls, self.its, self.open = [], [], set()
        self.ids = {}
        self.ev = []
        Clock.now = 0
        reactor.rightNow = 0.0

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def tick(self, n):
        Clock.now += n
        reactor.advance(n)

    def real(self, ID):
        """The hashable thing that is the identifier called ID here"""
        if ID not in self.ids:
            n = len(self.ids)
            self.ids[ID] = self.rng.choice([ID, n, (ID, n), -n])
        return self.ids[ID]

    def name(self, x):
        for ID in self.ids:
            if type(self.ids[ID]) is type(x) and self.ids[ID] == x: return ID
        return 'unknown'

    def call(self, ID, now=None):
        """Calls a part; with I{now} it has its result at once."""
        r = self.rng
        args = [object() for k in range(self.k)] + [self.real(ID)] + [object() for k in range(r.randint(0, 2))]
        kw = dict(x=object()) if r.random() < 0.5 else {}
        seen = []
        d = defer.Deferred()
        def part(*a, **k):
            seen.append((list(a), k))
            if now is not None: self.fire(d, call)
            return d
        call = dict(d=d, got=[], fail=r.random() < 0.3)
        self.calls.append(call)
        n = len(self.calls)
        self.log('call', id=ID, t=Clock.now, ok=True)
        k = len(self.ev) - 1
        dd = self.timer(part, *args, **kw)
        dd.addBoth(call['got'].append)
        self.ev[k]['ok'] = len(seen) == 1 and seen[0][0] == args and seen[0][1] == kw
        if now is None: self.open.add(n)
        else: self.passed(n)

    def fire(self, d, call):
        if call['fail']:
            call['result'] = Failure(RuntimeError("part failed"))
            d.errback(call['result'])
        else:
            call['result'] = object()
            d.callback(call['result'])

    def passed(self, n):
        call = self.calls[n-1]
        got = call['got']
        same = len(got) == 1 and (
            got[0].value is call['result'].value if call['fail'] and isinstance(got[0], Failure) else got[0] is call['result'])
        self.log('done', call=n, t=Clock.now, same=same)

    def done(self, n):
        self.open.discard(n)
        self.fire(self.calls[n-1]['d'], self.calls[n-1])
        self.passed(n)

    def start(self):
        self.its.append(iter(self.timer))
        self.log('start')

    def next(self, it):
        if self.its[it-1] is None: return
        try:
            x = next(self.its[it-1])
        except StopIteration:
            self.its[it-1] = None
            self.log('stop', it=it)
            return
        self.log('next', it=it, id=self.name(x))

    def whole(self):
        self.start()
        while self.its[-1] is not None: self.next(len(self.its))

    def pickle(self):
        if self.open or any(self.its): return
        self.timer = pickle.loads(pickle.dumps(self.timer))


def randomly(rng, p):
    names = ['a', 'b', 'c', 'd', 'e'][:rng.randint(1, 5)]
    for k in range(rng.choice([5, 15, 40])):
        x = rng.random()
        if x < 0.3: p.call(rng.choice(names))
        elif x < 0.35: p.call(rng.choice(names), True)
        elif x < 0.6 and p.open: p.done(rng.choice(sorted(p.open)))
        elif x < 0.75: p.tick(rng.choice([1, 1, 2, 5, 30]))
        elif x < 0.83:
            p.start()
            p.next(len(p.its))
        elif x < 0.95 and p.its: p.next(rng.randint(1, len(p.its)))
        elif x < 0.97: p.pickle()
        else: p.whole()

def replay(p, b):
    for e in b:
        if e['op'] == 'call': p.call(e['id'])
        elif e['op'] == 'done':
            p.tick(e['t'] - Clock.now)
            p.done(e['call'])
        elif e['op'] == 'start':
            p.start()
            p.next(len(p.its))
        elif e['op'] == 'next': p.next(e['it'])
    p.whole()

def scenario(rng, b, tag):
    p = Parts(rng, rng.choice([0, 0, 1, 2]))
    try:
        with watchdog(20):
            if b is None: randomly(rng, p)
            else: replay(p, b)
            for n in sorted(p.open): p.done(n)
            for it in range(len(p.its)):
                for j in range(10): p.next(it+1)
            p.whole()
    except Hang:
        p.log('hang')
        HANGS.append(1)
    except Exception as e:
        p.log('exc', what=excText(e))
    finally: Clock.now = None
    return {'cfg': dict(x=0), 'ev': p.ev, 'tag': tag}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), None, 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), b, 'behaviour'))
    return traces
