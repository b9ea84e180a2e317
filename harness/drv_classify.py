"""Classifies and shows pairs of fitness values as Classify.tla describes."""
from base import *
from ade.util import msg
from ade.population import Population
from ade.report import Reporter
from ade import abort

MODULE = 'Classify'

class Out(object):
    """Collects what is written to the log."""
    def __init__(self): self.text = ''
    def write(self, x): self.text += x
    def flush(self): pass
    def close(self): pass
    def take(self):
        x, self.text = self.text, ''
        return list(x)

def make(rng, code, p):
    """An individual with the fitness that the code stands for."""
    i = p.spawn([rng.uniform(0, 1), rng.uniform(0, 1)])
    if code == -1: i.SSE = rng.choice([-1, -0.5, -1e6])
    elif code == INF: i.SSE = rng.choice([None, float('inf'), float('nan'), np.inf, np.nan])
    else: i.SSE = rng.choice([float, int, np.float64])(code)
    return i

VALUES = [0, 0, 1, 2, 5, 49, 50, 51, 97, 98, 99, 100, 101, 103, 149, 151, 250, 800, 899, 950, 951, 1000, 5000, 100000]

def pick(rng):
    x = rng.random()
    if x < 0.08: return -1
    if x < 0.2: return INF
    if x < 0.6: return rng.choice(VALUES)
    return rng.randint(1, 1200)

def toRatio(r):
    return -1 if r is None else toInt(r)

def scenario(rng, steps, line, md, tag):
    ev, out = [], Out()
    try:
        with watchdog(20):
            freshReactor()
            abort.restart()
            p = Population(lambda v: 0.0, ['a', 'b'], [(0, 1), (0, 1)], popsize=1)
            p.pm.maxLineLength = line
            r = Reporter(p)
            if md != 20: r.minDiff = md/1000.0
            p.reporter = r
            msg(out)
            for step in steps:
                quiet = step[-1]
                kw = {'noProgress': True} if quiet else {}
                if step[0] == 'ratio':
                    x = r.msgRatio(make(rng, step[1], p), make(rng, step[2], p), **kw)
                    ev.append(dict(op='ratio', num=step[1], den=step[2], r=toRatio(x), quiet=quiet, out=out.take()))
                elif step[0] == 'lone':
                    force = step[2]
                    if force: kw['force'] = True
                    r(make(rng, step[1], p), **kw)
                    ev.append(dict(op='lone', s=step[1], force=force, quiet=quiet, out=out.take()))
                elif step[0] == 'pair':
                    x = r(make(rng, step[2], p), make(rng, step[1], p), **kw)
                    ev.append(dict(op='pair', old=step[1], new=step[2], r=toRatio(x), quiet=quiet, out=out.take()))
                else:
                    r.progressChar()
                    ev.append(dict(op='fresh', out=out.take()))
    except Hang:
        ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        ev.append(dict(op='exc', what=excText(e)))
    msg(None)
    return {'cfg': dict(md=md, line=line), 'ev': ev, 'tag': tag}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed)
    traces = []
    for k in range(n):
        if enough(): break
        steps = []
        best = None
        for j in range(rng.choice([6, 20, 40])):
            x = rng.random()
            quiet = rng.random() < 0.1
            if x < 0.35: steps.append(('ratio', pick(rng), pick(rng), quiet))
            elif x < 0.6:
                s = pick(rng)
                # Something is forced only if it is known to be no worse than the best
                force = rng.random() < 0.1 and s >= 0 and (best is None or s <= best)
                steps.append(('lone', s, force, quiet))
                if s >= 0 and (best is None or s < best): best = s
            elif x < 0.9:
                old, new = pick(rng), pick(rng)
                if new == -1 and best is None: continue
                steps.append(('pair', old, new, quiet))
                if new >= 0 and (best is None or new < best): best = new
            else: steps.append(('fresh', False))
        line, md = rng.choice([3, 5, 8, 20, 79]), rng.choice([20, 20, 20, 100])
        if k % parts == part: traces.append(scenario(rng, steps, line, md, 'random'))
    # All pairs, each as a plain ratio and as a challenge
    for k in range(0, len(beh), 40):
        if enough(): break
        if (k // 40) % parts != part: continue
        steps = []
        for a, b in beh[k:k+40]:
            steps.append(('ratio', a, b, False))
            if b != -1: steps.append(('pair', a, b, False))
        traces.append(scenario(rng, steps, 79, 20, 'pairs'))
    return traces
