"""
Extracts the examples, as Extract.tla describes.

The code under test writes and must not overwrite, so it runs in a child process
as an unprivileged user, on a copy of the package and with a home directory that
are scratch files of that user's.
"""
import os, sys, json, random, shutil, subprocess, tempfile, time

MODULE = 'Extract'
HERE = os.path.abspath(__file__)
REPO = os.environ.get('ADE_REPO', '/repo')
NOBODY = 65534
EXAMPLES = ('.py', '.c', '.txt', '.specs')


def isExample(name):
    return 'a' <= name[0] <= 'z' and os.path.splitext(name)[1] in EXAMPLES and len(name) > 3


class Home(object):
    """In the child: one user with a home directory, and the package's examples."""
    def __init__(self, rng, top, pkgDir, extract):
        self.rng, self.top, self.pkgDir, self.extract = rng, top, pkgDir, extract
        self.home = os.path.join(top, 'home')
        self.dir = os.path.join(self.home, 'ade-examples')
        self.clear(self.home)
        os.makedirs(self.home)
        os.makedirs(os.path.join(self.home, 'other'))
        self.write(os.path.join(self.home, 'other', 'kept.py'), 5)
        self.write(os.path.join(self.home, 'notes.txt'), 6)
        os.environ['HOME'] = self.home
        self.contents = {}
        self.ev = []
        self.mine = []

    def clear(self, path):
        if os.path.islink(path) or os.path.isfile(path): os.unlink(path)
        elif os.path.isdir(path): shutil.rmtree(path)

    def write(self, path, c):
        with open(path, 'w') as fh: fh.write("content %d\n" % c)

    def number(self, data):
        return self.contents.setdefault(data, len(self.contents) + 100)

    def look(self, path):
        if os.path.islink(path): return self.number('link ' + os.readlink(path))
        if os.path.isdir(path): return self.number('directory')
        with open(path, 'rb') as fh: return self.number(fh.read())

    def listing(self, top, skip=()):
        """Everything below top, each directory being there too."""
        result = []
        for path, dirs, files in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__' and os.path.join(path, d) not in skip)
            for name in sorted(files) + dirs:
                full = os.path.join(path, name)
                result.append(dict(n=os.path.relpath(full, top), c=self.look(full)))
        return result

    def elsewhere(self):
        return self.listing(self.top, (self.dir, self.pkgDir))

    def package(self):
        """(examples, all else) packaged"""
        every = [x for x in self.listing(self.pkgDir) if os.path.isfile(os.path.join(self.pkgDir, x['n']))]
        return [x for x in every if isExample(x['n'])], [x for x in every if not isExample(x['n'])]

    def change(self):
        """Another version of the package"""
        r = self.rng
        for path in self.mine: self.clear(path)
        self.mine = []
        for name in r.sample(['extra.specs', 'more.txt', 'x1.py', 'code.c', 'Upper.py', '_private.py',
                              'data.csv', 'odd.pyx', 'sub.py'], r.randint(0, 5)):
            path = os.path.join(self.pkgDir, name)
            if name == 'sub.py': os.mkdir(path)
            else: self.write(path, r.randint(10, 14))
            self.mine.append(path)

    def put(self, name, c):
        if not os.path.isdir(self.dir): os.mkdir(self.dir)
        path = os.path.join(self.dir, name)
        self.clear(path)
        self.write(path, c)
        self.log('put', n=name, c=self.look(path))

    def link(self, name, target):
        if not os.path.isdir(self.dir): os.mkdir(self.dir)
        path = os.path.join(self.dir, name)
        self.clear(path)
        os.symlink(os.path.join('..', 'other', target), path)
        self.log('put', n=name, c=self.look(path))

    def remove(self, name):
        path = os.path.join(self.dir, name)
        if os.path.lexists(path): self.clear(path)
        self.log('remove', n=name)

    def wipe(self):
        self.clear(self.dir)
        self.log('wipe')

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def run(self):
        before = self.listing(self.pkgDir)
        self.extract()
        self.log('extract', user=self.listing(self.dir) if os.path.isdir(self.dir) else [],
                 **{'else': self.elsewhere(), 'intact': self.listing(self.pkgDir) == before})

    def names(self):
        return [x['n'] for x in self.package()[0]]


def randomly(rng, h):
    for k in range(rng.choice([2, 5, 10])):
        x = rng.random()
        there = sorted(os.listdir(h.dir)) if os.path.isdir(h.dir) else []
        if x < 0.35: h.run()
        elif x < 0.55: h.put(rng.choice(h.names() + ['mine.py', 'zz', 'README.txt']), rng.randint(1, 4))
        elif x < 0.65: h.link(rng.choice(h.names() + ['mine.py']), rng.choice(['kept.py', 'kept.py', 'gone.py']))
        elif x < 0.8 and there: h.remove(rng.choice(there))
        elif x < 0.85: h.wipe()
        elif x < 0.95:
            h.change()
            pkg, also = h.package()
            h.log('package', pkg=pkg, also=also)
    h.run()

def replay(h, b):
    a, bb = h.rng.sample(h.names(), 2)
    name = {'a': a, 'b': bb, 'mine': 'mine.py'}
    for e in b:
        if e['op'] == 'put': h.put(name[e['n']], e['c'])
        elif e['op'] == 'remove': h.remove(name[e['n']])
        elif e['op'] == 'wipe': h.wipe()
        elif e['op'] == 'extract': h.run()
    h.run()


def child(top, jobFile, outFile):
    with open(jobFile) as fh: job = json.load(fh)
    sys.path.insert(0, top)
    import warnings, io
    warnings.simplefilter('ignore')
    out, traces = sys.stdout, []
    from ade.scripts.examples import extract
    from ade.util import msg
    pkgDir = os.path.join(top, 'ade', 'examples')
    def quiet():
        sys.stdout = io.StringIO()
        try: extract()
        finally:
            msg(None)
            sys.stdout = out
    start = time.time()
    for n, b, tag in job:
        if time.time() > start + 300: break
        rng = random.Random(n)
        h = Home(rng, top, pkgDir, quiet)
        if b is None and rng.random() < 0.5: h.change()
        pkg, also = h.package()
        cfg = dict(pkg=pkg, also=also, there=False)
        cfg['else'] = h.elsewhere()
        try:
            if b is None: randomly(rng, h)
            else: replay(h, b)
        except Exception as e:
            h.log('exc', what='%s: %s' % (type(e).__name__, str(e)[:200]))
        for path in h.mine: h.clear(path)
        traces.append(dict(cfg=cfg, ev=h.ev, tag=tag))
    with open(outFile, 'w') as fh: json.dump(traces, fh)


def open_(path):
    """Lets others pass through the directories above path that are ours."""
    while True:
        path = os.path.dirname(path)
        if path in ('/', '/tmp') or os.stat(path).st_uid != os.getuid(): return
        if not os.stat(path).st_mode & 0o011:
            os.chmod(path, os.stat(path).st_mode & 0o777 | 0o011)

def drive(fam, n, seed, beh, part=0, parts=1):
    job = [(seed*100003 + k, None, 'random') for k in range(n) if k % parts == part]
    job += [(seed*100003 + k, b, 'behaviour') for k, b in enumerate(beh) if k % parts == part]
    scratch = tempfile.mkdtemp(prefix='extract-')
    try:
        top = os.path.join(scratch, 'top')
        os.mkdir(top)
        shutil.copytree(os.path.join(REPO, 'ade'), os.path.join(top, 'ade'),
                        ignore=shutil.ignore_patterns('test', '__pycache__', '*.png', '*.log'))
        script = os.path.join(scratch, 'child.py')
        shutil.copy(HERE, script)
        jobFile, outFile = os.path.join(scratch, 'job.json'), os.path.join(top, 'out.json')
        with open(jobFile, 'w') as fh: json.dump(job, fh)
        open_(scratch)
        for path, dirs, files in os.walk(scratch):
            for name in [path] + [os.path.join(path, f) for f in files]: os.chown(name, NOBODY, NOBODY)
        env = dict(PATH='/usr/bin:/bin', HOME=os.path.join(top, 'home'), MPLBACKEND='Agg', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=scratch)
        try:
            r = subprocess.run([sys.executable, script, top, jobFile, outFile], env=env, cwd=top,
                               user=NOBODY, group=NOBODY, extra_groups=[], timeout=420,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            return [dict(cfg=None, ev=[dict(op='hang')], tag='child')]
        if r.returncode != 0 or not os.path.exists(outFile):
            return [dict(cfg=None, ev=[dict(op='exc', what=r.stdout.decode('utf8', 'replace')[-1500:])], tag='child')]
        with open(outFile) as fh: return json.load(fh)
    finally: shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__': child(*sys.argv[1:])
