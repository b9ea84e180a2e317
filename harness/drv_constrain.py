"""Makes constraint objects and calls what they yield, as Constrain.tla describes."""
from base import *
from ade.constraints import Constraints, RelationsChecker

MODULE = 'Constrain'
NAMES = ['a', 'b', 'c', 'd', 'e']


class Objects(object):
    """The constraint objects of one scenario, whose functions tell what they are given."""
    def __init__(self, rng):
        self.rng = rng
        self.objs, self.takes = [], []
        self.calls = []
        self.ev = []

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def called(self, f, params):
        ret = self.rng.random() < 0.6
        self.calls.append(dict(f=f, ret=ret, params=[
            dict(n=n, v=toInt(params[n], 100)) for n in sorted(params)]))
        return self.rng.choice([True, 1, np.True_]) if ret else self.rng.choice([False, 0, np.False_])

    def method(self, f):
        def func(me, params): return self.called(f, params)
        func.__name__ = f
        return func

    def new(self, reg):
        r = self.rng
        seq = lambda x: r.choice([list, tuple])(x) if x or r.random() < 0.5 else None
        registry = {m['f']: r.choice([list, tuple])([seq(m['lin']), seq(m['log'])]) for m in reg}
        ns = {m['f']: self.method(m['f']) for m in reg}
        seen = []
        late = r.random() < 0.3
        def setup(me, *args):
            seen.append((args, getattr(me, 'gain', None)))
            if late: me.registry = registry
        if not late: ns['registry'] = registry
        told = late or r.random() < 0.3
        if told: ns['setup'] = setup
        cls = type('Mine', (Constraints,), ns)
        self.log('new', reg=reg)
        if told:
            obj = cls(3, 'x', gain=7)
            self.log('setup', ok=(seen == [((3, 'x'), 7)]))
        else: obj = cls()
        self.objs.append(obj)

    def append(self, obj, f):
        def func(params): return self.called(f, params)
        self.objs[obj-1].append(func)
        self.log('append', obj=obj, f=f)

    def size(self, obj):
        self.log('size', obj=obj, len=len(self.objs[obj-1]), true=bool(self.objs[obj-1]))

    def take(self, obj):
        if self.rng.random() < 0.5: got = list(self.objs[obj-1])
        else: got = [f for f in self.objs[obj-1]]
        self.takes.append(got)
        self.log('take', obj=obj, n=len(got))

    def check(self, take, k, given):
        params = {g['n']: float(g['v']) if self.rng.random() < 0.5 else g['v'] for g in given}
        before = dict(params)
        self.calls = []
        got = bool(self.takes[take-1][k-1](params))
        if params != before: self.log('exc', what="parameters altered")
        self.log('check', take=take, k=k, given=given, got=got, calls=self.calls)

    def relate(self):
        r = self.rng
        values = {n: r.randint(-40, 40) for n in NAMES}
        relations, of = {}, []
        for j in range(r.choice([0, 1, 2, 3])):
            x, y = r.sample(NAMES, 2)
            if y in relations.get(x, {}): continue
            m, err = r.choice([-2, -1, 0, 1, 3]), r.choice([0, 1, 2, 8])
            # Close to the limit
            b = values[y] - m*values[x] + r.choice([-1, 1])*(err + r.choice([0, 0, -1, -1, 1 if r.random() < 0.5 else 0]))
            relations.setdefault(x, {})[y] = (m, b/8.0, err/8.0)
            of.append(dict(x=x, y=y, m=m, b=b, err=err, xv=values[x], yv=values[y]))
        got = RelationsChecker(relations)({n: values[n]/8.0 for n in NAMES})
        self.log('relate', of=of, got=bool(got))


def randomly(rng, o):
    count = 0
    for k in range(rng.choice([1, 1, 2])):
        reg, names = [], rng.sample(['p', 'q', 'r', 's', 't'], rng.choice([0, 1, 2, 3, 4]))
        logs = set(rng.sample(NAMES, 2))
        for f in names:
            own = rng.sample(NAMES, rng.choice([0, 1, 2, 3]))
            lin, log = [n for n in own if n not in logs], [n for n in own if n in logs]
            if log and rng.random() < 0.2: lin.append(rng.choice(log))
            reg.append(dict(f=f, lin=lin, log=log))
        o.new(reg)
    for k in range(rng.choice([5, 10, 20])):
        obj = rng.randint(1, len(o.objs))
        x = rng.random()
        if x < 0.1:
            count += 1
            o.append(obj, 'f%d' % count)
        elif x < 0.2: o.size(obj)
        elif x < 0.35: o.take(obj)
        elif x < 0.5: o.relate()
        elif any(o.takes):
            take = rng.choice([j for j, t in enumerate(o.takes) if t])
            there = rng.sample(NAMES, rng.choice([0, 2, 3, 4, 5, 5, 5, 5]))
            o.check(take+1, rng.randint(1, len(o.takes[take])), [dict(n=n, v=rng.randint(-2, 4)) for n in there])

def replay(o, b):
    for e in b:
        if e['op'] == 'new': o.new(e['reg'])
        elif e['op'] == 'append': o.append(e['obj'], e['f'])
        elif e['op'] == 'take': o.take(e['obj'])
        elif e['op'] == 'check': o.check(e['take'], e['k'], e['given'])
    o.size(1)

def scenario(rng, b, tag):
    o = Objects(rng)
    try:
        with watchdog(20):
            if b is None: randomly(rng, o)
            else: replay(o, b)
    except Hang:
        o.log('hang')
        HANGS.append(1)
    except Exception as e:
        o.log('exc', what=excText(e))
    return {'cfg': dict(x=0), 'ev': o.ev, 'tag': tag}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), None, 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), b, 'behaviour'))
    return traces
