"""
Runs TLC: to check a model exhaustively, to generate behaviours, or to check
recorded traces.
"""
import os, re, subprocess, json, shutil, time

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
JARS = ':'.join('/opt/veriftools/tla/' + x for x in (
    'tla2tools.jar', 'CommunityModules-deps.jar'))


DEADLINE = [None]       # when everything has to be done


class TLCError(Exception):
    pass


def tlc(module, cfg, scratch, workers=1, env=None, timeout=600, args=(), heap='2g'):
    """
    Runs TLC on I{module} with I{cfg}, both in spec/, and returns its output and
    exit code, which is None if there was not enough time.
    """
    if DEADLINE[0]: timeout = max(10, min(timeout, DEADLINE[0] - time.time()))
    meta = os.path.join(scratch, 'meta-%s-%d' % (module, len(os.listdir(scratch))))
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xss16m', '-Xmx' + heap, '-XX:ParallelGCThreads=2',
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)] + list(args) + [
               os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as e:
        text = e.output or ''
        return text if isinstance(text, str) else text.decode('utf8', 'replace'), None
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout, r.returncode


COUNTS = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)
SIMCOUNT = re.compile(r'number of states generated: ([\d,]+)')


def counts(text):
    m = COUNTS.findall(text)
    if m: return int(m[-1][0]), int(m[-1][1])
    m = SIMCOUNT.findall(text)
    if m: return int(m[-1].replace(',', '')), 0
    return 0, 0


def model(module, cfg, scratch, workers=4, timeout=800, heap='4g'):
    """
    Checks a model exhaustively. Returns (transitions, states); raises TLCError
    if TLC found anything wrong with it.
    """
    text, rc = tlc(module, cfg, scratch, workers, timeout=timeout, heap=heap)
    if rc != 0 or 'No error has been found' not in text:
        raise TLCError("model %s %s: exit %s\n%s" % (module, cfg, rc, text[-3000:]))
    return counts(text)


LINE = re.compile(r'^<<"BEHAVIOUR", "(.*)">>$', re.M)


def plain(cfg, scratch):
    """
    Writes a configuration without invariants and returns its path.
    """
    with open(os.path.join(SPEC, cfg)) as fh: text = fh.read()
    path = os.path.join(scratch, 'plain-' + os.path.basename(cfg))
    with open(path, 'w') as fh: fh.write(re.sub(r'(?m)^INVARIANTS?\b.*(\n[ \t]+.*)*\n?', '', text))
    return path


def generate(module, cfg, scratch, seed=None, num=None, depth=None, timeout=300):
    """
    Has TLC print behaviours as JSON. With I{num}, by seeded simulation. Otherwise
    it's for a model that's checked anyway, so invariants are left out.
    """
    args = []
    if not num: cfg = plain(cfg, scratch)
    if num: args = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)]
    text, rc = tlc(module, cfg, scratch, 1, timeout=timeout, args=args)
    found = LINE.findall(text)
    if rc != 0 or not found:
        raise TLCError("generator %s %s: exit %s\n%s" % (module, cfg, rc, text[-3000:]))
    seen, result = set(), []
    for x in found:
        if x in seen: continue
        seen.add(x)
        result.append(json.loads(x.replace('\\"', '"').replace('\\\\', '\\')))
    return result, counts(text)


REJECT = re.compile(r'^<<"REJECT", (\d+), (\d+), "(.*)">>$', re.M)
DONE = re.compile(r'^<<"DONE", (\d+), (\d+)>>$', re.M)


def check(module, traces, scratch, most=100000):
    """
    Does L{checkSome} for so many traces at a time that they have at most about
    I{most} events.
    """
    rejects, counts, first, odd, late = [], [0, 0], 0, [], []
    while first < len(traces):
        last, n = first, 0
        while last < len(traces) and n < most:
            n += len(traces[last]['ev']) + 1
            last += 1
        found, (a, b) = checkSome(module, traces[first:last], scratch, odd=odd, late=late)
        rejects += [(k+first, n, c) for k, n, c in found]
        counts = [counts[0]+a, counts[1]+b]
        first = last
        if late: break
    if late and not rejects: raise TLCError("no time to check all traces of %s" % module)
    return rejects, counts


def checkSome(module, traces, scratch, timeout=800, depth=0, odd=None, late=None):
    """
    Checks recorded traces against Trace<module>. Returns a list of (index of
    trace, index of event, clause) and the counts. Every trace has to be
    accounted for. A trace that the specification cannot even evaluate is
    rejected with the clause "unevaluable"; after a few of those the search for
    them is given up. If time runs out, what was found until then counts.
    """
    if odd is None: odd = []
    if late is None: late = []
    if not traces or late or len(odd) >= 4: return [], (0, 0)
    path = os.path.join(scratch, 'traces-%s-%d-%d.json' % (module, os.getpid(), len(os.listdir(scratch))))
    with open(path, 'w') as fh:
        json.dump([{'cfg': t['cfg'], 'ev': t['ev'] or [{'op': 'nothing'}]} for t in traces], fh)
    text, rc = tlc('Trace' + module, 'Trace.cfg', scratch, 1, {'TRACE_FILE': path}, timeout)
    os.unlink(path)
    done = {int(a): int(b) for a, b in DONE.findall(text)}
    complete = all(done.get(k+1) == max(1, len(t['ev'])) for k, t in enumerate(traces))
    if rc is None: late.append(1)
    if rc is None or rc == 0 and complete:
        rejects = [(int(a)-1, int(b)-1, c) for a, b, c in REJECT.findall(text)]
        return rejects, counts(text)
    if 'Parsing or semantic analysis failed' in text or 'Error: TLC threw an unexpected' in text and depth == 0 and len(traces) == 0:
        raise TLCError("trace check %s: exit %s\n%s" % (module, rc, text[-3000:]))
    if len(traces) == 1:
        # The specification has no meaning for what was seen
        odd.append(1)
        return [(0, len(traces[0]['ev'])-1, 'unevaluable ' + ' '.join(text[-1500:].split())[-600:])], (0, 0)
    half = len(traces) // 2
    a, na = checkSome(module, traces[:half], scratch, timeout, depth+1, odd, late)
    b, nb = checkSome(module, traces[half:], scratch, timeout, depth+1, odd, late)
    return a + [(k+half, n, c) for k, n, c in b], (na[0]+nb[0], na[1]+nb[1])
