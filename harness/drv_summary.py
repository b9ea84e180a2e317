"""Writes logs with what ade prints and has them summarised, as Summary.tla describes."""
import re, io, os, pdb, tempfile, shutil, contextlib
from base import *
from ade import abort
from ade.population import Population
from ade.individual import Individual
from ade.scripts import lgg

MODULE = 'Summary'

STEMS = ['x', 'y_', 'alpha', 'Beta', 'kb']
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
TOKEN = re.compile(r'^([^*]+)(\**)$')


class Failed(Exception): pass


class Summary(object):
    def __init__(self, rng, scratch, names, bounds=(0, 1000)):
        """The names are pairs of stem and number, or stem and letter for stems with an underscore."""
        self.rng, self.scratch = rng, scratch
        self.text = dict((x, x[0] + (str(x[1]) if not x[0].endswith('_') else LETTERS[x[1]])) for x in names)
        self.names = sorted(names, key=lambda x: self.text[x])
        self.bounds = bounds
        self.entries = []
        self.cfg = dict(names=[dict(st=a, n=b) for a, b in self.names], log=[])
        self.ev = []
        freshReactor()
        abort.restart()
        cls = type('P', (Population,), {'Np_min': 8, 'Np_max': 8})
        self.p = cls(lambda v: 0.0, [self.text[x] for x in self.names], [bounds]*len(names), popsize=1)
        self.p.setup(blank=True)
        reactor.settle()

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def stars(self, v):
        lo, hi = self.bounds
        return 1 if (v - lo)*20 < hi - lo else 2 if (v - lo)*20 > 19*(hi - lo) else 0

    def entry(self, s, v):
        self.cfg['log'].append(dict(s=s, v=list(v), st=[self.stars(x) for x in v]))
        i = Individual(self.p, np.array(v, dtype=float))
        i.SSE = float(s)
        return i

    def noise(self):
        r = self.rng
        return r.choice(['', '', 'X2X42%d+' % r.randint(0, 9), 'Generation %d/10  F=U(0.5, 1.0)  N_hist=%d' % (
            r.randint(1, 9), r.randint(1, 99)), '-'*120, 'Press the Enter key to abort.', '\t', 'x = 7']) + '\n'

    def write(self, items, final):
        """A log of those entries and a table of a final population."""
        lines = [self.noise() for k in range(self.rng.randint(0, 3))]
        for s, v in items:
            i = self.entry(s, v)
            lines.append(self.rng.choice(['', '', 'Best so far:\n']) + repr(i) + '\n')
            if (s, v) != items[-1] or final or self.rng.random() < 0.5:
                lines.append('\n')
                lines += [self.noise() for k in range(self.rng.choice([0, 0, 1, 2]))]
        if final:
            for k, (s, v) in enumerate(final): self.p[k] = self.entry(s, v)
            lines += ['\n', 'Final population\n', repr(self.p).split('Best individual')[0]]
        self.path = os.path.join(self.scratch, 'run.log')
        with open(self.path, 'w') as fh: fh.write(''.join(lines))

    def pattern(self):
        r = self.rng
        st, n = r.choice(self.names)
        kind = r.choice(['all', 'stem', 'one', 'one', 'range', 'range'])
        b = n + r.choice([0, 1, 2, 5])
        if st.endswith('_'): b = min(25, b)
        p = dict(kind=kind, st=st, a=n, b=b)
        name = lambda n: str(n) if not st.endswith('_') else LETTERS[n]
        return p, {'all': '*', 'stem': st + '*', 'one': st + name(n), 'range': st + name(n) + '-' + name(b)}[kind]

    def show(self, patterns):
        def post(tb): raise Failed()
        was, sys.argv, real = sys.argv, ['lgg', self.path] + [x for p, x in patterns], pdb.post_mortem
        pdb.post_mortem = post
        out, failed = io.StringIO(), False
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()): lgg.main()
        except (Exception, SystemExit): failed = True
        finally: sys.argv, pdb.post_mortem = was, real
        e = dict(args=[p for p, x in patterns], cols=[], rows=[], failed=failed)
        lines = [x for x in out.getvalue().split('\n') if x.strip() and x.strip('-')]
        if not failed and lines:
            head = lines[0].split()
            texts = [self.text[x] for x in self.names]
            e['cols'] = [texts.index(x)+1 if x in texts else 0 for x in head[1:]]
            if head[0] != 'SSE': e['cols'] = [-1]
            for line in lines[1:]:
                parts = [TOKEN.match(x) for x in line.split()]
                if None in parts: e['failed'] = True
                else:
                    e['rows'].append(dict(s=self.number(parts[0]), v=[self.number(x) for x in parts[1:]],
                                          st=[len(x.group(2)) for x in parts[1:]]))
        elif not failed: e['failed'] = True
        self.log('show', **e)

    def number(self, m):
        try: return toInt(float(m.group(1)))
        except ValueError: return ODD


def guarded(f, r, tag):
    try:
        with watchdog(30): f()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        r.log('exc', what=excText(e))
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}

def someNames(rng):
    names = set()
    for st in rng.sample(STEMS, rng.choice([1, 2, 3])):
        n = rng.choice([0, 1, 8])
        for k in range(rng.choice([1, 2, 4, 9])): names.add((st, n + k))
    return sorted(names)

def random1(seed, scratch):
    rng = random.Random(seed)
    seedAll(seed)
    lo = rng.choice([0, -500, -1000])
    r = Summary(rng, scratch, someNames(rng), (lo, lo + 1000))
    def value():
        while True:
            v = rng.choice([rng.randint(lo, lo+1000), lo, lo+1, lo+1000])
            if v % 100 or not v: return v
    def go():
        # Evolution towards the best, with small and large steps
        n = rng.choice([1, 2, 5, 10, 30, 80])
        fits, s, items = set(), rng.choice([501, 5001]), []
        now = [value() for x in r.names]
        for k in range(n):
            s = max(101, s + rng.choice([0, 2, 2, 4, 20, s//3])*rng.choice([1, -1, -1, -1]))
            if s % 2 == 0: s += 1
            while s in fits: s += 2
            fits.add(s)
            if rng.random() < 0.3: now = [value() if rng.random() < 0.3 else x for x in now]
            if rng.random() < 0.3:
                j = rng.randrange(len(now))
                x = now[j] + rng.choice([-1, 1, -3, 3])
                if lo <= x <= lo+1000 and (x % 100 or not x): now[j] = x
            items.append((s, list(now)))
        final = []
        if rng.random() < 0.4:
            for k in range(7):
                s = max(fits) + 2
                if rng.random() < 0.5: s = min(fits) - 2
                if s < 1: s = max(fits) + 2
                fits.add(s)
                final.append((s, [value() for x in r.names]))
        r.write(items, final)
        for k in range(3): r.show([] if k == 0 else [r.pattern() for j in range(rng.choice([1, 1, 2, 3]))])
    return guarded(go, r, 'random')

def behaviour(seed, scratch, b):
    rng = random.Random(seed)
    r = Summary(rng, scratch, [('x', 1), ('x', 2)], (0, 50))
    def go():
        r.write([(x['s'], x['v']) for x in b], [])
        r.show([])
        r.show([(dict(kind='all', st='', a=0, b=0), '*')])
        r.show([(dict(kind='one', st='x', a=1, b=1), 'x1')])
    return guarded(go, r, 'behaviour')

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    scratch = tempfile.mkdtemp(prefix='summary-')
    try:
        for k in range(n):
            if enough(): break
            if k % parts == part: traces.append(random1(seed*100003 + k, scratch))
        for k, b in enumerate(beh):
            if enough(): break
            if k % parts == part: traces.append(behaviour(seed*100003 + k, scratch, b))
        return traces
    finally: shutil.rmtree(scratch, ignore_errors=True)
