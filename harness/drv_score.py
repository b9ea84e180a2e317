"""Reports improvements and asks about the status quo as Score.tla describes."""
from base import *
from ade import abort
from ade.population import Population

MODULE = 'Score'

class Draws(object):
    """
    Makes the random numbers that could decide an inquiry extreme ones, within
    a with statement.
    """
    def __init__(self, u): self.u = u
    def __enter__(self):
        self.saved = np.random.random_sample, np.random.random, np.random.rand, random.random
        f = lambda *args: self.u
        np.random.random_sample = np.random.random = np.random.rand = random.random = f
    def __exit__(self, *args):
        np.random.random_sample, np.random.random, np.random.rand, random.random = self.saved

def scenario(rng, steps, Np, fraction, direct, tag):
    ev = []
    cfg = None
    try:
        with watchdog(20):
            freshReactor()
            abort.restart()
            cls = type('P', (Population,), {'Np_min': Np})
            kw = {'targetFraction': fraction} if fraction else {}
            p = cls(lambda v: 0.0, ['a', 'b'], [(0, 1), (0, 1)], popsize=1, **kw)
            def make(s):
                i = p.spawn([rng.uniform(0, 1), rng.uniform(0, 1)])
                i.SSE = rng.choice([None, np.inf, np.nan]) if s == INF else float(s)
                return i
            best = 100000
            p.report(make(best))
            cfg = dict(target=int(round(1000*(fraction or 0.02)*Np)), md=20, best=best)
            for step in steps:
                kind, x = step[0], step[1]
                if kind == 'ratio':
                    p.replacement(x)
                    ev.append(dict(op='ratio', r=x))
                elif kind == 'challenge':
                    base = rng.randint(best + 1000, 4*best + 2000)
                    old, new = dict(
                        lose=lambda: (base, base + rng.randint(1, base)),
                        tie=lambda: (base, base),
                        invalid=lambda: (base, INF),
                        equiv=lambda: (base, base - base//rng.randint(60, 200)) if best < base - base//60 else (base, base+1),
                        two=lambda: (2*base + base//rng.randint(4, 20), base),
                        ten=lambda: (INF, base),
                        best=lambda: (best + best//7, best - max(1, best//9)) if best > 60 else (base, base+1))[x]()
                    p.report(make(new), make(old))
                    ev.append(dict(op='report', old=old, new=new))
                    if new < best: best = new
                elif kind == 'lone':
                    new = best + rng.randint(-best//20, best)
                    p.report(make(new))
                    ev.append(dict(op='lone', new=new))
                    best = min(best, new)
                elif kind == 'target':
                    p.replacement(sqs=x/1000.0)
                    ev.append(dict(op='target', t=x))
                elif kind == 'ask':
                    with Draws(rng.choice([0.0, 0.5, 1-2.0**-53, 1-2.0**-53])):
                        yes = p.replacement()
                    ev.append(dict(op='ask', yes=bool(yes)))
                else: continue
                score = getattr(p, 'replacementScore', None)
                if score is not None: ev.append(dict(op='score', x=toInt(score, 1000)))
    except Hang:
        ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        ev.append(dict(op='exc', what=excText(e)))
    return {'cfg': cfg, 'ev': ev, 'tag': tag}

KINDS = ['lose', 'tie', 'invalid', 'equiv', 'two', 'ten', 'best']

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed)
    traces = []
    for k in range(n):
        if enough(): break
        steps = []
        for j in range(rng.choice([8, 20, 50])):
            x = rng.random()
            if x < 0.25: steps.append(('ratio', rng.choice([0, 0, 1, 1, 2, 3, 9, 1000])))
            elif x < 0.6: steps.append(('challenge', rng.choice(KINDS)))
            elif x < 0.65: steps.append(('lone', 0))
            elif x < 0.75: steps.append(('target', rng.choice([30, 120, 430, 1530, 9930, 20030])))
            else: steps.append(('ask', 0))
        if k % parts == part:
            traces.append(scenario(rng, steps, rng.choice([4, 13, 20, 50]), rng.choice([None, 0.1, 0.01]), True, 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part:
            traces.append(scenario(rng, b, rng.choice([13, 20, 50]), None, True, 'behaviour'))
    return traces
