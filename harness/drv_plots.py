"""Has parameters and correlations plotted and looks at the figures, as Plots.tla describes."""
import io, os, re, gc, math, tempfile, shutil, contextlib, importlib
os.environ['MPLBACKEND'] = 'Agg'
from base import *
import screeninfo.screeninfo

class Monitor(object):
    width, height, x, y, width_mm, height_mm, name = 1920, 1080, 0, 0, 500, 300, 'none'
screeninfo.screeninfo.get_monitors = lambda *args: [Monitor()]

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from matplotlib.colors import to_hex
from yampex.plot import Plotter
from yampex.options import Opts
from matplotlib.backends.backend_agg import FigureCanvasAgg
# Nobody looks at the pixels, and the layout needs most of the time, so it's usually left out
def seldom(real):
    return lambda *args, **kw: real(*args, **kw) if LAYOUT else None
LAYOUT = []
FigureCanvasAgg.draw = seldom(FigureCanvasAgg.draw)
Figure.tight_layout = seldom(Figure.tight_layout)
Plotter.subplots_adjust = seldom(Plotter.subplots_adjust)
DEFAULTS = dict((k, type(v)() if isinstance(v, (list, dict)) else v) for k, v in Opts._opts.items())
from ade import abort
from ade.history import Analysis
from ade.population import Population
from ade.individual import Individual

MODULE = 'Plots'

NAMES = ['zeta', 'alpha', 'k10', 'k2', 'Vmax', 'b', 'tau', 'x', 'yy', 'q1', 'gamma', 'c_p', 'R']
LABELS = ['pop', 'old', 'never']
R = re.compile(r'R=([-+][0-9.]+)')
LINE = re.compile(r'Y=(\S+)\*X ([-+]) (\S+)')

def milli(x): return toInt(x, 1000)


class Plots(object):
    def __init__(self, rng, scratch, names, recs):
        self.rng, self.scratch, self.names, self.recs = rng, scratch, names, recs
        self.cfg = dict(order=[names.index(x)+1 for x in sorted(names)], recs=recs)
        self.ev = []
        self.saved = []

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def analysis(self):
        """The records in rows in any order, with some rows between not in use."""
        n = len(self.recs)
        rows = list(range(n + self.rng.choice([0, 3])))
        X = np.array([[99]*(len(self.names)+1) for k in rows], dtype=self.rng.choice(['f4', 'f8']))
        self.rng.shuffle(rows)
        K, Kp, Kn = rows[:n], set(), set()
        for k, r in zip(K, self.recs):
            X[k,:] = [r['s']] + r['v']
            if r['l'] == 'pop': Kp.add(k)
            elif r['l'] == 'never': Kn.add(k)
        return Analysis(list(self.names), X, K, Kp, Kn)

    # What is to be seen in figures --------------------------------------------

    def title(self, text):
        return self.names.index(text)+1 if text in self.names else 0

    def axes(self, fig):
        return [ax for ax in fig.axes if ax.lines]

    def values(self, fig):
        return [dict(title=self.title(ax.get_title()), log=ax.get_yscale() == 'log', xl=ax.get_xlabel() == 'SSE',
                     colors=[to_hex(l.get_color()) for l in ax.lines],
                     lines=[[dict(s=toInt(x), v=toInt(y)) for x, y in zip(l.get_xdata(), l.get_ydata())]
                            for l in ax.lines]) for ax in self.axes(fig)]

    def fitted(self, text):
        m = LINE.search(text)
        if not m: return ODD, ODD
        return milli(m.group(1)), milli(m.group(3)) * (-1 if m.group(2) == '-' else 1)

    def pair(self, ax):
        text = ' '.join(t.get_text() for t in ax.texts)
        r = R.search(text)
        m, b = self.fitted(text)
        S = dict(x=self.title(ax.get_xlabel()), y=self.title(ax.get_ylabel()), m=m, b=b, pts=[],
                 r=toInt(r.group(1), 100) if r else ODD, line=dict(x1=ODD, x2=ODD, y1=ODD, y2=ODD))
        for l in ax.lines:
            X, Y = l.get_xdata(), l.get_ydata()
            if l.get_linestyle() in ('None', '', ' '):
                S['pts'] += [dict(x=toInt(x), y=toInt(y), z=int(10*l.get_markersize()) + (5 if l.get_marker() == 'o' else 0))
                             for x, y in zip(X, Y)]
            elif len(X) == 2:
                S['line'] = dict(x1=toInt(X[0]), x2=toInt(X[1]), y1=milli(Y[0]), y2=milli(Y[1]))
        return S

    def isPair(self, fig):
        return any(ax.get_ylabel() for ax in self.axes(fig))

    def close(self):
        Plotter.ph.removeAll()
        plt.close('all')

    def call(self, f):
        """Calls f. Returns whether that failed, the result, what was printed, and all figures."""
        out, figs, saved = io.StringIO(), [], []
        # Yampex has plotters share the options set outside subplots
        Opts._opts = dict((k, type(v)(v) if isinstance(v, (list, dict)) else v) for k, v in DEFAULTS.items())
        def show(*args, **kw): figs.extend(self.seen(plt.figure(n)) for n in plt.get_fignums())
        def save(fig, fh, *args, **kw):
            name = getattr(fh, 'name', fh)
            saved.append((os.path.basename(name), os.path.dirname(name) == self.scratch, [int(round(100*x)) for x in fig.get_size_inches()]))
            figs.append(self.seen(fig))
        def figure(*args, **kw):
            gc.collect()
            return realFigure(*args, **kw)
        realShow, realSave, realFigure, result, failed = plt.show, Figure.savefig, plt.figure, None, False
        plt.show, Figure.savefig, plt.figure = show, save, figure
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()): result = f()
        except (Exception, SystemExit): failed = True
        finally: plt.show, Figure.savefig, plt.figure = realShow, realSave, realFigure
        figs = figs or [self.seen(plt.figure(n)) for n in plt.get_fignums()]
        self.close()
        return failed, result, out.getvalue(), figs, saved

    def seen(self, fig):
        axes = self.axes(fig)
        if self.isPair(fig): return 'pairs', [self.pair(ax) for ax in axes]
        return 'values', self.values(fig)

    # What is done ---------------------------------------------------------------

    def asked(self):
        e = dict(args=[], slice=False, a=0, b=0)
        how = self.rng.choice(['all', 'names', 'names', 'slice'])
        if how == 'names':
            e['args'] = [k+1 for k in self.rng.sample(range(len(self.names)), self.rng.randint(1, min(4, len(self.names))))]
            return e, [self.names[k-1] for k in e['args']]
        if how == 'slice':
            a = self.rng.randrange(len(self.names))
            e.update(slice=True, a=a, b=self.rng.randint(a+1, len(self.names)))
            return e, [e['a'], e['b']]
        return e, []

    def plot(self, a):
        e, names = self.asked()
        kw = {}
        ratio = self.rng.choice([0, 0, 2, 3, 5, 20])
        if ratio: kw['maxRatio'] = ratio/2.0
        for key, keyword in [('inpop', 'inPop'), ('log', 'semilog')]:
            e[key] = self.rng.random() < 0.3
            if e[key] or self.rng.random() < 0.3: kw[keyword] = e[key]
        def f():
            if self.rng.random() < 0.2 and len(names) > 1 and not e['slice']:
                pt = Plotter(len(names))
                with pt as sp: a.plot(names, sp=sp, **kw)
            else: a.plot(names, noShow=True, **kw)
        failed, result, out, figs, saved = self.call(f)
        self.log('plot', ratio=ratio or 2000, figs=[x for kind, x in figs], failed=failed or bool(saved) or bool(out.replace(
            'WARNING: Neither GTK3Agg nor tkagg available!', '').strip()), **e)

    def printed(self, out):
        """Lines printed about pairs."""
        found = []
        for line in out.split('\n'):
            m = re.match(r'^\s*(\S+):(\S+) \((R=\S+)\)\s+(Y=.*)$', line)
            if m:
                s, b = self.fitted(m.group(4))
                r = R.search(m.group(3))
                found.append(dict(x=self.title(m.group(1)), y=self.title(m.group(2)),
                                  r=toInt(r.group(1), 100) if r else ODD, m=s, b=b))
        return found

    def corr(self, a):
        name = self.rng.choice([0, 0, self.rng.randint(1, len(self.names))])
        n = self.rng.choice([1, 2, 4, 4, 7])
        kw = dict(N=n) if n != 4 or self.rng.random() < 0.5 else {}
        if name: kw['name'] = self.names[name-1]
        verbose = self.rng.random() < 0.4
        if verbose: kw['verbose'] = True
        failed, result, out, figs, saved = self.call(lambda: a.plotCorrelated(noShow=self.rng.random() < 0.8, **kw))
        self.log('corr', name=name, n=n, verbose=verbose, failed=failed or bool(saved), lines=self.printed(out),
                 subs=[s for kind, x in figs for s in x])

    def xy(self, a):
        x, y = self.rng.sample(range(len(self.names)), 2)
        frac = self.rng.random() < 0.4 and self.recs[0]['s'] < self.recs[-1]['s']
        kw = dict(useFraction=True) if frac else {}
        arg = lambda k: self.names[k] if self.rng.random() < 0.7 else k+1
        failed, ret, out, figs, saved = self.call(lambda: a.plotXY(arg(x), arg(y), **kw))
        subs = [s for kind, x in figs for s in x]
        ok = not failed and len(subs) == 1 and isinstance(ret, tuple) and len(ret) == 4
        self.log('xy', x=x+1, y=y+1, frac=frac, failed=not ok, sub=subs[0] if ok else {},
                 ret=dict(x=self.title(ret[0]), y=self.title(ret[1]), m=milli(ret[2]), b=milli(ret[3])) if ok else {})

    def later(self, pt):
        gc.collect()
        pt.showAll()

    def number(self, name, base):
        if name == base + '.png': return 1
        m = re.match('^%s-([0-9]+)[.]png$' % base, name)
        return int(m.group(1)) if m else 0

    def files(self, a):
        """Plotting into files."""
        w, h = self.rng.choice([(800, 600), (1000, 0), (0, 0)])
        base = self.rng.choice(['a', 'plot', 'two.words'])
        kw = dict(dims='%dx%d' % (w, h) if h else '%d' % w) if w else {}
        a.filePath(os.path.join(self.scratch, base + '.png'), **kw)
        got, figures = [], 0
        failed, sizes = False, []
        for k in range(self.rng.randint(1, 2)):
            if self.rng.random() < 0.5: f = lambda: self.later(a.plot([], noShow=True))
            else: f = lambda: a.plotCorrelated(N=1)
            bad, result, out, figs, saved = self.call(f)
            failed = failed or bad or not all(x[1] for x in saved) or len(figs) != len(saved)
            got += sorted(self.number(x[0], base) for x in saved)
            sizes += [dict(w=x[2][0], h=x[2][1]) for x in saved]
            figures += max(1, len(figs))
        self.log('files', got=got, n=figures, failed=failed, sizes=sizes if w else [], w=w, h=h)

    def script(self):
        """The parameter viewer on a saved population of those records."""
        freshReactor()
        abort.restart()
        p = Population(math.fsum, list(self.names), [(0, 9)]*len(self.names), popsize=1)
        p.setup(blank=True)
        reactor.settle()
        order = list(self.recs)
        self.rng.shuffle(order)
        p.history.clear()
        reactor.settle()
        for r in order:
            i = Individual(p, np.array(r['v'], dtype=float))
            i.SSE = float(r['s'])
            p.history.add(i, neverInPop=r['l'] == 'never')
            reactor.settle()
            if r['l'] == 'old':
                p.history.notInPop(i)
                reactor.settle()
        path = os.path.join(self.scratch, 'population.dat')
        p.save(path)
        e, names = self.asked()
        e.update(inpop=self.rng.random() < 0.3, log=self.rng.random() < 0.3)
        if e['slice']: e.update(slice=False, a=0, b=0, args=[]); names = []
        ratio = self.rng.choice([0, 2, 3, 20])
        n = self.rng.choice([0, 1, 4]) if ratio else self.rng.choice([1, 4])
        opts = (['-r', '%g' % (ratio/2.0)] if ratio else []) + (['-N', str(n)] if n else []) \
            + (['-i'] if e['inpop'] else []) + (['-s'] if e['log'] else [])
        verbose = self.rng.random() < 0.4
        if verbose: opts.append('-v')
        toFile = self.rng.random() < 0.5
        if toFile: opts += ['-f', os.path.join(self.scratch, 'pv.png')]
        was, sys.argv = sys.argv, ['pv'] + opts + [path] + names
        def f():
            import ade.scripts.pv as pv
            importlib.reload(pv)
            pv.main()
        try: failed, result, out, figs, saved = self.call(f)
        finally: sys.argv = was
        failed = failed or bool(saved) != toFile
        if ratio: self.log('plot', ratio=ratio, failed=failed, figs=[x for kind, x in figs if kind == 'values'], **e)
        if n:
            pairs = [x for kind, x in figs if kind == 'pairs']
            lines = self.printed(out)
            if len(pairs) != max(1, len(e['args'])): failed = True
            for k, name in enumerate(e['args'] or [0]):
                subs = pairs[k] if k < len(pairs) else []
                self.log('corr', name=name, n=n, verbose=verbose, failed=failed, lines=lines[:len(subs)], subs=subs)
                lines = lines[len(subs):]
        if toFile: self.log('files', got=sorted(self.number(x[0], 'pv') for x in saved), n=len(saved), sizes=[], w=0, h=0,
                            failed=failed)


def guarded(f, r, tag):
    try:
        with watchdog(60): f()
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        r.log('exc', what=excText(e))
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}

def random1(seed, scratch, what):
    rng = random.Random(seed)
    seedAll(seed)
    nd = rng.choice([2, 2, 3, 3, 4] if what != 'values' else [1, 2, 3, 4, 4, 8, 10, 11])
    names = rng.sample(NAMES, nd)
    n = rng.randint(3, 6)
    while True:
        V = [[rng.randint(0, 4) for k in range(nd)] for j in range(n)]
        if all(len(set(v[k] for v in V)) > 1 for k in range(nd)): break
    base = rng.choice([1, 2, 5])
    if what == 'script': fits = sorted(rng.sample(range(base, 9*base + 9), n))
    else: fits = sorted([base] + [base*rng.choice([1, 3, 7]) for k in range(n-1)])
    r = Plots(rng, scratch, names, [dict(s=s, v=v, l=rng.choice(LABELS)) for s, v in zip(fits, V)])
    LAYOUT[:] = [1] if rng.random() < 0.12 and nd < 5 else []
    def go():
        if what == 'script': return r.script()
        a = r.analysis()
        if what == 'values':
            r.plot(a)
            if nd <= 4: r.plot(a)
        else:
            r.corr(a)
            r.xy(a)
            r.plot(a)
        if rng.random() < 0.3 and nd in (2, 3, 10): r.files(a)
    return guarded(go, r, what)

def behaviour(seed, scratch, recs):
    rng = random.Random(seed)
    seedAll(seed)
    r = Plots(rng, scratch, rng.sample(['c', 'a', 'b'], 3), recs)
    LAYOUT[:] = []
    def go():
        a = r.analysis()
        r.corr(a)
        r.plot(a)
    return guarded(go, r, 'behaviour')

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    gc.freeze()
    traces = []
    scratch = tempfile.mkdtemp(prefix='plots-')
    try:
        for k in range(n):
            if enough(): break
            if k % parts == part: traces.append(random1(seed*100003 + k, scratch, ['values', 'pairs', 'pairs', 'script'][k//parts % 4]))
        for k, b in enumerate(beh):
            if enough(): break
            if k % parts == part: traces.append(behaviour(seed*100003 + k, scratch, b))
        return traces
    finally: shutil.rmtree(scratch, ignore_errors=True)
