"""Sets up populations to see where their candidates are, as Latin.tla describes."""
from fractions import Fraction
from base import *
import drv_setup
from drv_setup import World, opts, mix, BOGUS

MODULE = 'Latin'


class Latin(World):
    def __init__(self, o, seed):
        World.__init__(self, o, seed)
        self.draws = []
        self.seen = set()

    def log(self, op, **kw):
        World.log(self, op, **kw)
        if op == 'setup':
            self.seen = set()
            self.draws.append({'op': 'setup', 'latin': not self.o['uniform']})
        elif op in ('exc', 'hang'): self.draws.append({'op': op})

    def vid(self, values):
        key = tuple(float(x) for x in values)
        if key not in self.seen:
            self.seen.add(key)
            self.draws.append({'op': 'draw', 'cell': [
                int((Fraction(x) - Fraction(lo))*self.o['Np'] // (Fraction(hi) - Fraction(lo))) for x, (lo, hi) in zip(key, self.o['bounds'])]})
        return World.vid(self, values)

    def run(self):
        t = World.run(self)
        cfg = t['cfg'] and dict(np=t['cfg']['np'], nd=t['cfg']['nd'])
        return {'cfg': cfg, 'ev': self.draws, 'tag': t['tag']}


def famLatin(rng, n, beh):
    for k in range(n):
        o = opts(rng, outcomes=mix(rng, *BOGUS), uniform=k % 8 == 7, blank=k % 6 == 5)
        if k % 3: o['Np'] = rng.choice([3, 4, 10, 30, 50])
        if k % 4 == 3: o['again'] = [rng.random() < 0.3]
        if k % 5 == 4:
            # Another scale, the same otherwise
            scale = rng.choice([2.0**-14, 2.0**-9, 2.0**10])
            o['bounds'] = [(lo*scale, hi*scale) for lo, hi in o['bounds']]
            o['cons'] = [(a, b*scale) for a, b in o['cons']]
        o['tag'] = 'latin'
        yield o
    for o in drv_setup.famFill(rng, 0, beh):
        o['uniform'] = False
        yield o

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed)
    traces = []
    for k, o in enumerate(famLatin(rng, n, beh)):
        if enough(): break
        if k % parts == part: traces.append(Latin(o, seed*100003 + k).run())
    return traces
