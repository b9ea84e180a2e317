"""
Has images shown by viewers that are started in name only, as Viewer.tla
describes. Files are watched with the real notifier, and each process is a real
one of the driver's own, which merely sleeps.
"""
import io, shutil, subprocess, tempfile
from base import *
from ade.util import msg
from ade.image import ImageViewer
from twisted.internet import error
from twisted.python.failure import Failure

MODULE = 'Viewer'


class Transport(object):
    """Stands in for that of a process started"""
    def __init__(self, pid): self.pid = pid
    def signalProcess(self, ID):
        if self.pid is None: raise error.ProcessExitedAlready()
    def loseConnection(self): pass
    closeStdin = closeStdout = closeStderr = loseConnection
    def write(self, data): pass
    def closeChildFD(self, fd): pass


class Images(object):
    def __init__(self, rng, there=None, nFiles=2, plain=False):
        self.rng = r = rng
        self.dir = tempfile.mkdtemp()
        self.ev = []
        self.children, self.numbers = {}, {}
        self.objs, self.shown = [], {}
        self.spawned = []
        os.mkdir(self.path('bin'))
        names = ['pqiv', 'qiv', 'view it', 'show']
        if there is None: there = [r.random() < 0.6 for k in range(r.choice([1, 2, 2, 3, 4]))]
        programs, self.exList = [], []
        for k, yes in enumerate(there):
            path = self.path('bin', names[k])
            if yes:
                with open(path, 'w') as fh: fh.write("#!/bin/sh\n")
                os.chmod(path, 0o755)
            opts = [self.option() for j in range(r.choice([0, 1, 2, 3]))]
            self.exList.append([path] + [o['pre'] + '{}' + o['post'] if o['named'] else o['pre'] for o in opts])
            programs.append(dict(name=names[k], there=yes, opts=opts))
        self.files = r.sample(['plot.png', 'a b.png', 'plot', 'x.pid.png', u'caf\xe9.png', 'p.q.jpg'], nFiles)
        self.files = [self.path(x) for x in self.files]
        self.cfg = dict(programs=programs, files=[dict(name=ascii(os.path.basename(x))[1:-1], path=ascii(x)[1:-1]) for x in self.files])
        self.Viewer = type('Viewer', (ImageViewer,), dict(exList=self.exList))
        self.handle = io.StringIO()
        msg(self.handle)
        reactor.spawnProcess = self.spawn

    def path(self, *names): return os.path.join(self.dir, *names)

    def option(self):
        r = self.rng
        named = r.random() < 0.4
        return dict(pre=r.choice(['--title=', '-t', '', 'of ']) if named else r.choice(['-Teit', '--disable-scaling', '-x', '7']),
                    post=r.choice(['', '', '!', ' shown']) if named else '', named=named)

    def log(self, op, **kw): self.ev.append(dict(op=op, **kw))

    # Processes
    def process(self):
        """Starts a process and returns the number that it has in the trace."""
        p = subprocess.Popen(['sleep', '100'], stdin=subprocess.DEVNULL)
        n = len(self.numbers) + 1
        self.numbers[p.pid] = n
        self.children[n] = p
        return n

    def kill(self, n):
        p = self.children.pop(n)
        p.kill()
        p.wait()
        return p.pid

    def spawn(self, proto, executable, args=(), env={}, *etc, **kw):
        n = self.process()
        executable = os.fsdecode(executable)
        paths = [ex[0] for ex in self.exList]
        t = Transport(self.children[n].pid)
        self.spawned.append(dict(
            i=paths.index(executable) + 1 if executable in paths else 0, p=n, args=[ascii(os.fsdecode(x))[1:-1] for x in args],
            env=env is None or dict(env) == dict(os.environ)))
        self.shown[n] = (proto, t)
        proto.makeConnection(t)
        return t

    def taken(self):
        """What was started and logged since, and the records now"""
        reactor.settle()
        record = []
        for path in self.files:
            n = 0
            if os.path.exists(path + '.pid'):
                with open(path + '.pid') as fh: text = fh.read()
                try: n = self.numbers.get(int(text), 0)
                except ValueError: pass
            record.append(n)
        result = dict(spawned=self.spawned, record=record, logged=bool(self.handle.getvalue().strip()))
        self.spawned = []
        self.handle.seek(0)
        self.handle.truncate()
        return result

    # What there is to do
    def size(self, f):
        try: return os.path.getsize(self.files[f-1])
        except OSError: return -1

    def put(self, f):
        with open(self.files[f-1], self.rng.choice(['wb', 'ab'])) as fh: fh.write(b'x' * self.rng.randint(1, 50))

    def make(self, f=1, quiet=False):
        before = self.size(f)
        old = set(reactor.getReaders())
        if quiet or self.rng.random() < 0.3: o = self.Viewer(self.files[f-1], noComplain=quiet)
        else: o = self.Viewer(self.files[f-1])
        self.objs.append(dict(o=o, f=f, p=0, readers=[x for x in reactor.getReaders() if x not in old]))
        self.log('make', f=f, quiet=quiet, before=before, after=self.size(f))

    def write(self, f=1):
        for k in range(self.rng.choice([1, 1, 2, 3])): self.put(f)

    def told(self, o):
        """Tells an object of whatever happened to its file."""
        obj = self.objs[o-1]
        for x in obj['readers']:
            if x in reactor.getReaders(): x.doRead()
        self.note('written', o)

    def written(self, f=1):
        self.write(f)
        for o in range(1, len(self.objs)+1):
            if self.objs[o-1]['f'] == f: self.told(o)

    def note(self, op, o, **kw):
        t = self.taken()
        if t['spawned']: self.objs[o-1]['p'] = t['spawned'][-1]['p']
        elif op == 'ended': self.objs[o-1]['p'] = 0
        self.log(op, o=o, **dict(kw, **t))

    def printed(self, n):
        for k in range(self.rng.choice([1, 1, 2])):
            self.shown[n][0].childDataReceived(2, self.rng.choice([b"cannot open display\n", b"?", b"error: 1\nerror: 2\n"]))

    def ended(self, o, err):
        n = self.objs[o-1]['p']
        proto, t = self.shown[n]
        if self.rng.random() < 0.3: proto.childDataReceived(1, b"hello\n")
        if err: self.printed(n)
        self.kill(n)
        t.pid = None
        reason = Failure(error.ProcessTerminated(1) if err and self.rng.random() < 0.7 else error.ProcessDone(0))
        proto.processExited(reason)
        proto.processEnded(reason)
        self.note('ended', o, err=err)

    def left(self, alive, f=1):
        """Leaves a record of a process, or nonsense if I{alive} is None."""
        r = self.rng
        if alive is None:
            n, text = 0, r.choice(['', '\n', 'none', '12 13', '-5', '99999999999999999999'])
        else:
            n = self.process()
            text = r.choice(['{}', '{}', '{}\n', ' {} \n']).format(self.children[n].pid)
            if not alive: self.kill(n)
        with open(self.files[f-1] + '.pid', 'w') as fh: fh.write(text)
        self.log('left', f=f, p=n, alive=bool(alive))

    def others(self):
        """Processes that no object has started"""
        return [n for n in sorted(self.children) if n not in self.shown]

    def died(self, n):
        self.kill(n)
        self.log('died', p=n)

    def stop(self):
        reactor.fireShutdown()
        reactor.settle()
        N = len(reactor.getReaders())
        for f in range(1, len(self.files)+1):
            if self.size(f) >= 0: self.write(f)
        for x in list(reactor.getReaders()): x.doRead()
        self.log('stop', watching=N, **self.taken())

    def close(self):
        for n in sorted(self.children): self.kill(n)
        for x in list(reactor.getReaders()):
            try: x.loseConnection()
            except Exception: pass
        reactor.removeAll()
        freshReactor()
        msg(None)
        shutil.rmtree(self.dir)


def randomly(rng, p):
    N = len(p.files)
    for f in range(1, N+1):
        if rng.random() < 0.5: p.put(f)
        if rng.random() < 0.4: p.left(rng.choice([None, False, True, True]), f)
    for k in range(rng.choice([4, 8, 15])):
        x = rng.random()
        showing = [o for o in range(1, len(p.objs)+1) if p.objs[o-1]['p']]
        f = rng.randint(1, N)
        if (not p.objs or x < 0.12) and len(p.objs) < 4: p.make(f, rng.random() < 0.3)
        elif x < 0.55 and p.size(f) >= 0: p.written(f)
        elif x < 0.8 and showing: p.ended(rng.choice(showing), rng.random() < 0.6)
        elif x < 0.85: p.left(rng.choice([None, False, True]), f)
        elif x < 0.95 and p.others(): p.died(rng.choice(p.others()))

def replay(p, b):
    for e in b['ops']:
        if e['op'] == 'make': p.make()
        elif e['op'] == 'left': p.left(e['alive'])
        elif e['op'] == 'died': p.died(p.others()[0])
        elif e['op'] == 'written':
            p.write()
            p.told(e['o'])
        elif p.objs[e['o']-1]['p']: p.ended(e['o'], e['err'])

def scenario(rng, b, tag):
    p = Images(rng, b and b['there'], 1 if b else 2)
    try:
        with watchdog(20):
            if b is None: randomly(rng, p)
            else: replay(p, b)
            p.stop()
    except Hang:
        p.log('hang')
        HANGS.append(1)
    except Exception as e:
        p.log('exc', what=excText(e))
    finally: p.close()
    return {'cfg': p.cfg, 'ev': p.ev, 'tag': tag}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    for k in range(n):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), None, 'random'))
    for k, b in enumerate(beh):
        if enough(): break
        if k % parts == part: traces.append(scenario(random.Random(seed*100003 + k), b, 'behaviour'))
    return traces
