"""Uses the abort facility as Abort.tla describes."""
from base import *
from ade import abort

MODULE = 'Abort'
console = fakereactor.FakeStandardIO

class Facility(object):
    def __init__(self, fresh):
        self.cfg = dict(fresh=fresh)
        self.ev = []
        self.called = []
        self.N = 0
        self.start = len(console.protocols)
        if not fresh:
            abort.restart()

    def press(self):
        if len(console.protocols) > self.start: console.protocols[-1].dataReceived(b'\n')

    def handler(self, h, act):
        def f():
            self.called.append(h)
            if act == 'reg': abort.callOnAbort(self.handler(h+100, 'none'))
            elif act == 'key': self.press()
            elif act == 'now': abort.abortNow()
        return f

    def do(self, op, act):
        kw = {}
        if op == 'reg':
            self.N += 1
            kw = dict(h=self.N, act=act)
            abort.callOnAbort(self.handler(self.N, act))
        elif op == 'key': self.press()
        elif op == 'now': abort.abortNow()
        elif op == 'turn': reactor.settle()
        elif op == 'ignore': abort.ignoreKeyboard()
        elif op == 'shutdown': abort.shutdown()
        elif op == 'stop': reactor.fireShutdown()
        elif op == 'restart': abort.restart()
        new = len(console.protocols) > self.start
        self.ev.append(dict(op=op, called=self.called, lost=console.protocols[-1].transport.lost if new else 0, **kw))
        self.called = []

def scenario(steps, fresh, tag):
    freshReactor()
    f = None
    try:
        with watchdog(20):
            f = Facility(fresh)
            due = False
            for op, act in steps:
                if op == 'end': break
                if op == 'restart': f.do('turn', '')
                f.do(op, act)
            f.do('turn', '')
    except Hang:
        f.ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        if f is None: return {'cfg': dict(fresh=fresh), 'ev': [dict(op='exc', what=excText(e))], 'tag': tag}
        f.ev.append(dict(op='exc', what=excText(e)))
    return {'cfg': f.cfg, 'ev': f.ev, 'tag': tag}

OPS = ['reg', 'reg', 'reg', 'reg', 'key', 'key', 'now', 'turn', 'turn', 'ignore', 'shutdown', 'stop', 'restart']

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed*7 + part)
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts != part: continue
        bag = [x for x in OPS if rng.random() < 0.8] + ['reg']
        steps = [(rng.choice(bag), rng.choice(['none', 'none', 'reg', 'key', 'now'])) for j in range(rng.choice([4, 8, 15, 30]))]
        # Only the first user of the facility in this process finds it unused
        traces.append(scenario(steps, not traces, 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part: traces.append(scenario(b, False, 'behaviour'))
    return traces
