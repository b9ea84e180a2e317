"""Reports individuals to callbacks that take their time, complain or fail, as Report.tla describes."""
from base import *
from ade import abort
from ade.population import Population

MODULE = 'Report'

COMPLAINTS = [False, 0, 0.0, '', [], 'Bad!', True, -1, {}, (), 'X'*50]


class Reports(object):
    def __init__(self, rng, ncb, answers, hanswers, Np):
        self.rng, self.answers, self.hanswers = rng, list(answers), list(hanswers)
        self.ev = []
        self.N = 0
        self.pending = []       # what callbacks and handlers returned that is still to come
        self.complaint = None
        self.s = {}
        self.evals = 0
        freshReactor()
        abort.restart()
        cls = type('P', (Population,), {'Np_min': Np})
        self.p = cls(lambda v: self.result, ['a', 'b'], [(0, 10**6), (0, 10**6)], popsize=1,
                     complaintCallback=self.handler)
        self.p.setup(blank=True)
        reactor.settle()
        self.cfg = dict(ncb=ncb, md=20)
        # The same function may be given several times, with other arguments
        shared = rng.random() < 0.3
        def sharedCallback(*args, **kw):
            cb = kw.pop('cb')
            return self.callback(cb)(*args, **kw)
        for k in range(ncb):
            kw = {'more': k+1} if k % 2 else {}
            if shared: self.p.addCallback(sharedCallback, 'x', cb=k+1, **kw)
            else: self.p.addCallback(self.callback(k+1), 'x', **kw)

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def make(self, s):
        self.N += 1
        i = self.p.spawn([self.N, self.rng.randint(0, 100)])
        result = self.rng.choice([np.inf, None, np.nan]) if s == INF else float(s)
        if self.rng.random() < 0.7:
            self.result = result
            i.evaluate()
            self.evals += 1
        else: i.SSE = result
        return i

    def best(self):
        return min([fit(i) for i in self.p] or [INF])

    #--- The other side ----------------------------------------------------------

    def answer(self, answers, op, fin):
        kind, nested = answers.pop(0) if answers else ('none', None)
        if nested is not None and self.N < 200: self.lone(nested)
        if kind == 'wait':
            d = defer.Deferred()
            self.pending.append((d, fin))
            self.log(op, kind='wait')
            return d
        self.log(op, kind=kind)
        return self.outcome(kind)

    def outcome(self, kind):
        if kind == 'fail': raise ValueError("No good")
        if kind == 'complain':
            self.complaint = self.rng.choice(COMPLAINTS)
            return self.complaint

    def callback(self, cb):
        def called(values, counter, SSE, *args, **kw):
            x = float(SSE)
            self.log('told', cb=cb, count=toInt(counter), id=toInt(values[0]), s=INF if math.isinf(x) else toInt(x),
                     args=args == ('x',) and kw == ({} if cb % 2 else {'more': cb}))
            return self.answer(self.answers, 'ret', 'fin')
        return called

    def handler(self, i, complaint):
        self.log('handler', id=toInt(i.values[0]), same=complaint is self.complaint)
        return self.answer(self.hanswers, 'hret', 'hfin')

    def finish(self, kind):
        if not self.pending: return
        d, op = self.pending.pop(0)
        if op == 'hfin' and kind == 'complain': kind = 'none'
        self.log(op, kind=kind)
        try:
            result = self.outcome(kind)
        except Exception as e:
            d.errback(e)
        else: d.callback(result)
        reactor.settle(0.0)

    #--- This side ----------------------------------------------------------------

    def score(self, rel):
        b = self.best()
        if b == INF: b = 100000
        if isinstance(rel, int): return rel
        r = self.rng
        return dict(
            better=lambda: b - b//r.randint(5, 30) - 1, equiv=lambda: b - b//r.randint(55, 400),
            much=lambda: b//r.randint(2, 10), tie=lambda: b, worse=lambda: min(10**6, b + b//r.randint(2, 300) + 1),
            bad=lambda: INF, zero=lambda: 0)[rel]()

    def lone(self, rel):
        s = max(0, self.score(rel))
        i = self.make(s)
        if self.rng.random() < 0.6: self.p.push(i)
        self.log('report', id=self.N, s=s, force=False, n=self.evals)
        self.p.report(i)

    def challenge(self, rel):
        s = max(0, self.score(rel))
        i = self.make(s)
        k = self.rng.randrange(len(self.p))
        old = self.p[k]
        if i < old: self.p[k] = i
        self.log('report', id=self.N, s=s, force=False, n=self.evals)
        self.p.report(i, old)

    def force(self, _):
        i = self.p.best()
        if fit(i) == INF: return
        self.log('report', id=toInt(i.values[0]), s=fit(i), force=True, n=self.evals)
        if self.rng.random() < 0.7: self.p.report()
        else: self.p.report(i, force=True)

    def wait(self, _):
        self.log('wait')
        self.p.waitForReports().addBoth(lambda _: self.log('waited'))

    def turn(self, _=None):
        reactor.settle(60.0)
        self.log('rest')

    def abort(self, _):
        self.log('abort')
        self.p.abort()

    def challengeable(self, _):
        """Whether each member is worse than a valid challenger exactly if it should be."""
        for i in self.p:
            if fit(i) == INF:
                j = self.make(10**6)
                self.N -= 1
                self.log('challenge', won=bool(j < i) and not i < j)
                break

    def quiet(self):
        best = getattr(getattr(self.p, 'reporter', None), 'iBest', None)
        pop = [dict(id=toInt(i.values[0]) if i.values[0] in self.known() else 0, s=fit(i)) for i in self.p]
        top = self.p.best()
        tops = [k for k, i in enumerate(self.p) if i is top]
        self.log('quiet', best=0 if best is None else toInt(best.values[0]), pop=pop,
                 top=tops[0]+1 if tops else 1, running=self.p.running is not False)

    def known(self):
        return range(1, self.N+1)

    def do(self, op, x):
        getattr(self, op)(x)
        reactor.settle(0.0)
        self.quiet()


def scenario(rng, ncb, answers, hanswers, steps, Np, tag):
    r = None
    try:
        with watchdog(20):
            r = Reports(rng, ncb, answers, hanswers, Np)
            for op, x in steps: r.do(op, x)
            # Let everything come to rest
            for k in range(60):
                if not r.pending: break
                r.do('finish', 'none')
            r.do('wait', None)
            r.do('turn', None)
            r.do('challengeable', None)
    except Hang:
        r.log('hang')
        HANGS.append(1)
    except Exception as e:
        if r is None: return {'cfg': None, 'ev': [dict(op='exc', what=excText(e))], 'tag': tag}
        r.log('exc', what=excText(e))
    return {'cfg': r.cfg, 'ev': r.ev, 'tag': tag}


RELS = ['better', 'better', 'equiv', 'much', 'tie', 'worse', 'bad']

def randomOne(rng, fam):
    bag = [('lone', x) for x in RELS] + [('challenge', x) for x in RELS] + [('force', None)]*3 + [('wait', None), ('turn', None)]
    bag += [('finish', k) for k in ['none']*5 + ['complain']*(5 if fam == 'complain' else 1)]
    bag = [x for x in bag if rng.random() < 0.7] + [('lone', 'better'), ('finish', 'none')]
    steps = [('lone', 'worse')] + [rng.choice(bag) for k in range(rng.choice([6, 12, 25]))]
    if rng.random() < 0.1: steps[rng.randrange(1, len(steps))] = ('finish', 'fail')
    if rng.random() < 0.05: steps[rng.randrange(1, len(steps))] = ('abort', None)
    if rng.random() < 0.05: steps.append(('lone', 'zero'))
    weights = rng.choice([['none'], ['none', 'wait'], ['wait'], ['none', 'wait', 'complain'], ['complain', 'wait'],
                          ['complain', 'none']][2 if fam == 'complain' else 0:])
    nest = rng.random() < 0.3
    def one(w):
        kind = rng.choice(w)
        if rng.random() < 0.02: kind = 'fail'
        return kind, rng.choice([None, None, 'better', 'much', 'worse', 'equiv']) if nest else None
    answers = [one(weights) for k in range(60)]
    hanswers = [one(rng.choice([['none'], ['none', 'wait'], ['wait']])) for k in range(60)]
    return rng.choice([1, 1, 2, 3]), answers, hanswers, steps, rng.choice([4, 5, 7])

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        traces.append(scenario(rng, *randomOne(rng, fam), fam))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts != part: continue
        rng = random.Random(seed*100003 + k)
        steps = [(op, x) for op, x in b if op not in ('answer', 'hanswer', 'end')]
        answers = [(x, None) for op, x in b if op == 'answer']
        hanswers = [(x, None) for op, x in b if op == 'hanswer']
        traces.append(scenario(rng, 2, answers, hanswers, steps, 4, 'behaviour'))
    return traces
