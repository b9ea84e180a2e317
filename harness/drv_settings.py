"""Makes runs and populations with various settings, as Settings.tla describes."""
from base import *
from ade import abort
from ade.population import Population, ParameterManager
from ade.individual import Individual
from ade.de import DifferentialEvolution

MODULE = 'Settings'
NAMES = ['CR', 'F', 'maxiter', 'randomBase', 'uniform', 'adaptive', 'bitterEnd', 'dwellByGrave', 'goalSSE', 'xSSE']
PLAIN = {'False': False, 'True': True, 'None': None}

def value(text):
    """What a string of the specification stands for."""
    if text in PLAIN: return PLAIN[text]
    x = [float(x) if '.' in x else int(x) for x in text.split()]
    return x[0] if len(x) == 1 else tuple(x)

def text(x):
    if x is None or x is True or x is False or isinstance(x, np.bool_): return str(x)
    if isinstance(x, (tuple, list)): return ' '.join(text(y) for y in x)
    return repr(int(x) if isinstance(x, (int, np.integer)) else float(x))

def refuses(f):
    try: return False, f()
    except (ValueError, TypeError): return True, None

class Settings(object):
    def __init__(self, rng):
        self.rng, self.ev = rng, []

    def log(self, op, **kw): self.ev.append(dict(op=op, **kw))

    def pop(self, func=None, n=2, **kw):
        return Population(func or (lambda v: 1.0), ['p%d' % k for k in range(n)], [(0, 1)]*n, **kw)

    def run(self, kw, cls):
        C = type('DE', (DifferentialEvolution,), dict((x['n'], value(x['v'])) for x in cls))
        given = dict((x['n'], value(x['v'])) for x in kw)
        CR = given.get('CR')
        if CR is None: CR = dict((x['n'], value(x['v'])) for x in cls).get('CR')
        if CR is None: CR = 0.8
        refused, de = refuses(lambda: C(self.pop(), logHandle=None, **given))
        got = [] if refused else [dict(n=n, v=text(getattr(de, n))) for n in NAMES]
        self.log('run', kw=kw, cls=cls, refused=refused, got=got, cr=int(round(CR*1000)))

    def population(self):
        rng, kw, cls = self.rng, {}, {}
        e = dict(nd=rng.choice([1, 2, 3, 7]), popsize=0, npmin=0, npmax=0, target=0, wrong=False)
        if rng.random() < 0.6:
            e['popsize'] = rng.choice([1, 2, 5, 10, 40, 100])
            kw['popsize'] = rng.choice([e['popsize'], float(e['popsize']), e['popsize'] + 0.6])
        elif rng.random() < 0.5: kw['popsize'] = None
        if rng.random() < 0.6: e['npmin'] = cls['Np_min'] = rng.choice([2, 5, 15, 30])
        if rng.random() < 0.4: e['npmax'] = cls['Np_max'] = rng.choice([10, 25, 60])
        if rng.random() < 0.4:
            e['target'] = rng.choice([100, 150, 250, 1000])
            kw['targetFraction'] = e['target']/10000.0
        names, bounds = ['p%d' % k for k in range(e['nd'])], [(0, 1)]*e['nd']
        func = lambda v: 1.0
        x = rng.random()
        if x < 0.1: e['wrong'], func = True, rng.choice([None, 5, 'f'])
        elif x < 0.2: e['wrong'], names = True, names + ['another']
        elif x < 0.3: e['wrong'], bounds = True, bounds + [(0, 2)]
        P = type('P', (Population,), cls)
        e['refused'], p = refuses(lambda: P(func, names, bounds, **kw))
        made = np_ = score = 0
        if not e['refused']:
            p.setup(blank=rng.random() < 0.7)
            reactor.settle()
            made, np_, score = len(p), int(p.Np), toInt(p.statusQuoScore, 10000)
        self.log('pop', np=np_, made=made, score=score, **e)

    def put(self):
        rng = self.rng
        p = self.pop()
        p.setup(blank=True)
        reactor.settle()
        x, changed = rng.choice(['member', 'cons']), False
        if x == 'member':
            wrong = rng.random() < 0.7
            k = rng.randrange(len(p))
            new = rng.choice([np.array([0.5, 0.5]), [0.5, 0.5], None, 1.0]) if wrong else Individual(p, np.array([0.5, 0.5]))
            before = list(p)
            refused, null = refuses(lambda: p.__setitem__(k, new))
            changed = len(p) != len(before) or any(a is not b for a, b in zip(before, p))
        else:
            wrong = rng.random() < 0.7
            good = [lambda d: False, lambda d: True]
            args = list(good[:rng.randint(1, 2)])
            p.setConstraints(lambda d: d['p0'] < 0.5)
            if wrong: args.insert(rng.randint(0, len(args)), rng.choice([None, 5, 'c']))
            refused, null = refuses(lambda: p.setConstraints(*args))
            changed = [bool(p.pm.passesConstraints(np.array([x, 0]))) for x in (0.2, 0.7)] != [True, False]
        self.log('put', wrong=wrong, refused=refused, changed=bool(changed))


def guarded(f, r, tag):
    freshReactor()
    abort.restart()
    try:
        with watchdog(30): f()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        r.log('exc', what=excText(e))
    return {'cfg': {}, 'ev': r.ev, 'tag': tag}

CHOICES = dict(CR=['0', '1', '0.0', '1.0', '0.3', '1.01', '-0.01', '2', '0.999'], F=['0.7', '0.2 0.4', '0.5', '0', '1.5'],
               maxiter=['0', '1', '30'], dwellByGrave=['0', '1', '8'], goalSSE=['0', '2.5', '100'],
               randomBase=['False', 'True', '0.5', '0.25'])

def random1(seed):
    rng = random.Random(seed)
    seedAll(seed)
    r = Settings(rng)
    def some(p):
        S = []
        for n in NAMES:
            if rng.random() < p: S.append(dict(n=n, v=rng.choice(CHOICES.get(n, ['False', 'True']) + ['None'])))
        return S
    def go():
        for k in range(2):
            kw, cls = some(rng.choice([0, 0.3, 0.9])), some(rng.choice([0, 0, 0.4]))
            r.run([x for x in kw if x['v'] != 'None' or x['n'] not in [y['n'] for y in cls]], cls)
        r.population()
        r.put()
    return guarded(go, r, 'random')

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(random1(seed*100003 + k))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        r = Settings(random.Random(seed*100003 + k))
        traces.append(guarded(lambda: r.run(b['kw'], b['cls']), r, 'behaviour'))
    return traces
