"""Writes messages to log handles of all sorts, as Log.tla describes."""
import sys, re
from base import *
from ade.util import Messenger

MODULE = 'Log'
HYPHENS = re.compile('-{20,}')


class Handle(object):
    """Keeps what is written to it; may fail at the n-th write, flush or close."""
    def __init__(self, log, h, fails=None):
        self.log, self.h, self.fails = log, h, fails
        self.count = 0

    def write(self, text):
        self.count += 1
        if self.fails and self.fails[0] == 'write' and self.count >= self.fails[1]:
            self.log.failed = True
            raise IOError("full")
        for t in re.findall('\n|[^\n]+', text):
            out = self.log.out
            if t != '\n' and out and out[-1]['h'] == self.h and out[-1]['t'] != '\n': out[-1]['t'] += t
            else: out.append(dict(h=self.h, t=t))

    def flush(self):
        if self.fails and self.fails[0] == 'flush' and self.count >= self.fails[1]:
            self.log.failed = True
            raise IOError("full")

    def close(self):
        self.log.closed.append(self.h)
        if self.fails and self.fails[2] and self.count >= self.fails[1]: raise IOError("full")


class Log(object):
    def __init__(self, rng):
        self.rng = rng
        self.out, self.closed, self.failed = [], [], False
        self.ev = []
        self.fh = {}
        self.done = set()
        self.msg = Messenger()
        self.stdout = Handle(self, 1)
        self.fh[1] = self.stdout

    def handle(self, h):
        if h not in self.fh:
            self.fh[h] = Handle(self, h)
        return self.fh[h]

    def bad(self, h, count):
        self.fh[h] = Handle(self, h, (self.rng.choice(['write', 'flush']), count, self.rng.random() < 0.4))

    def number(self, fh):
        if fh is None: return 0
        for h in self.fh:
            if self.fh[h] is fh: return h
        return -1

    def arg(self, to):
        """What says to switch to this handle"""
        if to == 0: return self.rng.choice([None, False])
        if to == 1: return True if self.rng.random() < 0.7 else self.stdout
        return self.handle(to)

    def call(self, e):
        r, msg = self.rng, self.msg
        e = dict(e, op='call')
        self.out, self.closed, self.failed = [], [], False
        args = [self.arg(e['to'])] if e['sw'] else []
        ret, got, kind = None, False, e['call']
        if kind == 'none':
            ret = msg(*args)
        elif kind == 'ask':
            got = bool(msg.lineWritten())
        elif kind == 'blank':
            msg(*(args + ['']))
        elif kind == 'rule':
            msg(*(args + ['-']))
        elif kind == 'empty':
            msg.writeLine('')
        elif kind == 'char':
            if e['sw'] or r.random() < 0.6: msg(*(args + [e['x']]))
            else: msg.writeChar(e['x'])
        else:
            what = {0: lambda: r.choice([-1, 0]), -2: lambda: '-'}
            pre = [what.get(x, lambda: x)() for x in e['pre']]
            post = [what.get(x, lambda: x)() for x in e['post']]
            proto = '{}'.join(e['lits'])
            fmt = [int(a) if re.match(r'-?\d+$', a) and r.random() < 0.7 else a for a in e['args']]
            if not pre and not post and not fmt and not e['sw'] and (len(proto) == 1 or r.random() < 0.4):
                msg.writeLine(proto)
            else: msg(*(args + pre + [proto] + fmt + post))
        out = [dict(x, t='-*' if HYPHENS.match(x['t']) else x['t']) for x in self.out]
        e.update(out=out, closed=self.closed, failed=self.failed, on=bool(msg), ret=self.number(ret), got=got)
        self.ev.append(e)


TEXTS = ['word', 'two words', 'a', '  spaced', 'x = 5', 'dash - dash', '--', '-->', '0', 'tab\there']

def someCall(rng, targets):
    sw = rng.random() < 0.2
    e = dict(sw=sw, to=rng.choice(targets) if sw else 0)
    x = rng.random()
    if x < (0.5 if sw else 0.1): return dict(e, call='none')
    if x < 0.6 and not sw: return dict(e, call='char', x=rng.choice('X0123456789+*!.'))
    if x < 0.63: return dict(e, call='blank') if not sw else dict(e, call='none')
    if x < 0.67: return dict(e, call='rule')
    if x < 0.7 and not sw: return dict(e, call='empty')
    if x < 0.8 and not sw: return dict(e, call='ask')
    pre = rng.choice([[], [], [], [0], [-2], [4], [0, -2], [-2, 2], [0, 3], [0, 0], [-2, 0]])
    post = rng.choice([[], [], [], [0], [-2], [0, -2], [-2, 0]])
    n = rng.choice([0, 0, 1, 2, 3])
    text = rng.choice(TEXTS)
    if not n and len(text) < 2: text = 'word'
    lits = [text] + [rng.choice(['', ' ', ', ', ' and ']) for k in range(n)]
    if n and rng.random() < 0.3: lits[0] = ''
    args = [rng.choice(['0', '-1', '-', '17', 'name', '-2', '0.5']) for k in range(n)]
    return dict(e, call='line', pre=pre, lits=lits, args=args, post=post)

def scenario(rng, beh, tag):
    o = Log(rng)
    true = sys.stdout
    try:
        with watchdog(20):
            sys.stdout = o.stdout
            if beh is None:
                used, nxt, fails = {0, 1}, 2, set()
                for k in range(rng.choice([4, 10, 25])):
                    if rng.random() < 0.3:
                        if rng.random() < 0.3: o.bad(nxt, rng.randint(1, 5))
                        else: o.handle(nxt)
                        used.add(nxt)
                        nxt += 1
                    e = someCall(rng, sorted(used))
                    o.call(e)
                    used -= {h for e in o.ev[-1:] for h in e['closed']}
                    if o.ev[-1]['failed']: used -= {h for h in used if h > 1 and o.fh[h].fails}
            else:
                o.bad(3, 1)
                for e in beh:
                    if e['call'] != 'end': o.call(e)
    except Hang:
        o.ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        o.ev.append(dict(op='exc', what=excText(e)))
    finally: sys.stdout = true
    return {'cfg': dict(x=0), 'ev': o.ev, 'tag': tag}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), None, 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), b, 'behaviour'))
    return traces
