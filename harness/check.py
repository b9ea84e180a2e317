"""
Decides one property:

    check.py PROPERTY [quick|thorough]
    check.py --replay FILE

1. TLC checks the models of the property exhaustively.
2. TLC generates behaviours, and the drivers replay those, and scenarios of
   their own, on the code in /repo, recording what happens.
3. TLC checks every recorded trace against the specification.
4. A few accepted traces are falsified and have to be rejected.

Exit 0 if the property held, 1 with a VIOLATION line if not, 2 if this check
itself failed.
"""
import os, sys, json, time, random, shutil, subprocess, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import tlc, corrupt
from registry import PROPS

PYTHON = '/opt/venv/bin/python'
EVIDENCE = os.path.join(ROOT, 'evidence')
FINDINGS = os.path.join(ROOT, 'known_findings.txt')


class CheckError(Exception):
    pass


def environment(scratch):
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
             PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), TMPDIR=scratch,
             HOME=os.path.join(scratch, 'home'), PYTHONHASHSEED='0')
    for name in ('mpl', 'home'):
        os.makedirs(os.path.join(scratch, name), exist_ok=True)
    return e


def known(prop):
    """Entries 'known: property=ID clause=CLAUSE tag=TAG text' for this property."""
    result = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if not line.startswith('known: property=%s ' % prop): continue
            rest = line.split(None, 4)
            result.append((rest[2].split('=', 1)[1], rest[3].split('=', 1)[1], rest[4].strip()))
    return result


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = PROPS[prop]
        self.t0 = time.time()
        tlc.DEADLINE[0] = self.t0 + 840
        self.states = self.transitions = 0
        self.traceStates = 0
        self.generated = 0
        self.traces = 0
        self.events = 0
        self.families = {}
        self.models = {}
        self.samples = []
        self.clean = {}         # module -> a few accepted traces
        self.bad = []           # (module, clause, step, trace, origin)
        self.foreign = {}       # clauses of other properties, for information

    def pick(self, pair):
        if isinstance(pair, (tuple, list)):
            return pair[1] if self.tier == 'thorough' else pair[0]
        return pair

    #--- The parts ---------------------------------------------------------------

    def runModel(self, module, cfg):
        t = time.time()
        trans, states = tlc.model(module, cfg, self.sub('model'))
        self.models['%s %s' % (module, cfg)] = dict(
            states=states, transitions=trans, wall_s=round(time.time()-t, 1))
        self.states += states
        self.transitions += trans

    def runSource(self, pool, k, src):
        """Starts the parts of one driver family; returns their futures."""
        drv, fam = src['driver'], src['family']
        n = self.pick(src.get('n', 0))
        behFile = '-'
        if 'gen' in src:
            beh = []
            for g in src['gen']:
                num = self.pick(g['num']) if 'num' in g else None
                cfg = self.pick(g['cfg'])
                found, (gen, distinct) = tlc.generate(
                    g['module'], cfg, self.sub('gen'), seed=self.seed % 2**31, num=num,
                    depth=g.get('depth'))
                limit = self.pick(g['limit']) if 'limit' in g else None
                if limit and len(found) > limit:
                    found = random.Random(self.seed).sample(found, limit)
                for b in found:
                    if isinstance(b, dict) and 'src' in g: b['src'] = g['src']
                beh += found
                self.models['%s %s' % (g['module'], cfg)] = dict(
                    states=distinct, transitions=gen, behaviours=len(found))
                self.states += distinct
                self.transitions += gen
                self.generated += len(found)
            behFile = os.path.join(self.scratch, 'beh-%d.json' % k)
            with open(behFile, 'w') as fh: json.dump(beh, fh)
        parts = src.get('parts', 4)
        return [pool.submit(self.runPart, src, drv, fam, n, p, parts, behFile, k) for p in range(parts)]

    def runPart(self, src, drv, fam, n, part, parts, behFile, k):
        out = os.path.join(self.scratch, 'out-%d-%d.json' % (k, part))
        seed = self.seed*31 + k + src.get('salt', 0)
        args = [PYTHON, os.path.join(HERE, 'drive.py'), drv, fam, str(n), str(seed),
                str(part), str(parts), behFile, out]
        env = environment(self.sub('home'))
        env['DRIVE_SECONDS'] = str(int(max(20, 480 - (time.time() - self.t0))))
        r = subprocess.run(args, cwd=self.scratch, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("driver %s %s failed (exit %d):\n%s" % (
                drv, fam, r.returncode, r.stdout.decode('utf8', 'replace')[-3000:]))
        with open(out) as fh: data = json.load(fh)
        os.unlink(out)
        module, traces = data['module'], data['traces']
        origin = dict(driver=drv, family=fam, n=n, seed=seed, part=part, parts=parts)
        broken = [t for t in traces if t['cfg'] is None]
        traces = [t for t in traces if t['cfg'] is not None]
        for t in broken:
            self.bad.append((module, self.prop + ':Broken', len(t['ev'])-1, t, origin))
        rejects, (gen, distinct) = tlc.check(module, traces, self.sub('trace'))
        rejected = set()
        for tk, n_ev, clause in rejects:
            if clause.startswith('unevaluable'):
                clause = '%s:Unevaluable %s' % (self.prop, clause[12:])
            if clause.startswith(self.prop + ':'):
                rejected.add(tk)
                self.bad.append((module, clause, n_ev, traces[tk], origin))
            else: self.foreign[clause] = self.foreign.get(clause, 0) + 1
        self.traces += len(traces)
        self.events += sum(len(t['ev']) for t in traces)
        self.traceStates += distinct
        key = '%s %s' % (drv, fam)
        self.families[key] = self.families.get(key, 0) + len(traces)
        good = [t for tk, t in enumerate(traces) if tk not in rejected]
        self.clean.setdefault(module, []).extend(good[:40])

    def sub(self, name):
        return tempfile.mkdtemp(prefix=name + '-', dir=self.scratch)

    def selfTest(self):
        """
        Falsifies accepted traces in something this property is about: most
        have to be rejected for this property. (What is falsified may happen
        not to matter, as when the same was about to fail anyhow.)
        """
        self.falsified = 0
        tried = []
        for module, traces in self.clean.items():
            func = corrupt.FUNCS.get((self.prop, module))
            if func is None: continue
            rng = random.Random(self.seed)
            false = []
            for t in traces:
                t2 = json.loads(json.dumps(t))
                if func(t2, rng): false.append(t2)
                if len(false) >= 8: break
            tried.append(bool(false))
            if not false: continue
            rejects, _ = tlc.check(module, false, self.sub('self'))
            accepted = [t for k, t in enumerate(false) if not [
                c for tk, _, c in rejects if tk == k and c.startswith(self.prop + ':')]]
            if 2*len(accepted) > len(false):
                raise CheckError("%d of %d falsified traces of %s were accepted: %s" % (
                    len(accepted), len(false), module, json.dumps(accepted[0])[:2000]))
            self.falsified += len(false) - len(accepted)
        if tried and not any(tried): raise CheckError("no trace to falsify")

    #--- All of it ----------------------------------------------------------------

    def run(self):
        self.scratch = tempfile.mkdtemp(prefix='ade-verif-')
        try:
            with ThreadPoolExecutor(8) as pool:
                futures = []
                # A model that is explored exhaustively for its behaviours is checked doing so
                gens = [(g['module'], self.pick(g['cfg'])) for src in self.conf['sources']
                        for g in src.get('gen', []) if 'num' not in g]
                models = [pool.submit(self.runModel, *m)
                          for m in self.conf.get('models', []) + (
                              self.conf.get('more', []) if self.tier == 'thorough' else [])
                          if m not in gens]
                starters = ThreadPoolExecutor(4)
                troubles = []
                for fs in [starters.submit(self.runSource, pool, k, src)
                           for k, src in enumerate(self.conf['sources'])]:
                    if fs.exception(): troubles.append(fs.exception())
                    else: futures += fs.result()
                troubles += [f.exception() for f in futures + models if f.exception()]
            # What was found wrong was, whatever else could not be done
            if troubles and not self.bad: raise troubles[0]
            if not self.bad: self.selfTest()
            return self.verdict()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def verdict(self):
        knownHere = known(self.prop)
        found, told = {}, set()
        for module, clause, step, trace, origin in self.bad:
            for c, tag, text in knownHere:
                if c == clause and (tag == '*' or tag == str(trace.get('tag', '')).replace(' ', '_')):
                    if text not in told:
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
                        told.add(text)
                    break
            else:
                name = clause.split()[0]
                if name not in found: found[name] = (module, clause, step, trace, origin)
        for clause in sorted(found):
            module, text, step, trace, origin = found[clause]
            os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
            path = os.path.join(EVIDENCE, 'replay', clause.replace(':', '-') + '.json')
            with open(path, 'w') as fh:
                json.dump(dict(property=self.prop, clause=text, module=module, step=step,
                               event=trace['ev'][step] if 0 <= step < len(trace['ev']) else None,
                               origin=origin, trace=trace), fh, indent=1)
            print("  %s at step %d of %s %s (%s): %s" % (
                text, step, origin['driver'], origin['family'], trace.get('tag', ''),
                json.dumps(trace['ev'][step])[:300] if 0 <= step < len(trace['ev']) else ''))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        self.evidence(len(found))
        print("%s %s: %d model states, %d traces (%d events), %d other clauses, %.1f s" % (
            self.prop, self.tier, self.states, self.traces, self.events,
            sum(self.foreign.values()), time.time() - self.t0))
        if self.foreign: print("  seen too:", self.foreign)
        if not self.traces: raise CheckError("no traces")
        return 1 if found else 0

    def evidence(self, violations):
        samples = []
        for module, traces in self.clean.items():
            for t in traces[:1]:
                text = json.dumps(t['ev'][:6])
                samples.append(dict(module=module, tag=t.get('tag', ''), events=text[:1200]))
        data = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=dict(
                states=self.states + self.traceStates, transitions=self.transitions + self.events,
                traces_validated_against_impl=self.traces,
                model_states=self.states, trace_states=self.traceStates,
                events_validated=self.events, behaviours_generated=self.generated,
                falsified_traces_rejected=getattr(self, 'falsified', 0),
                models=self.models, families=self.families, samples=samples),
            assumptions=self.conf.get('assumptions', []),
            wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as fh:
            json.dump(data, fh, indent=1)


def replay(path):
    with open(path) as fh: data = json.load(fh)
    scratch = tempfile.mkdtemp(prefix='ade-verif-')
    try:
        rejects, _ = tlc.check(data['module'], [data['trace']], scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    for _, step, clause in rejects:
        print(step, clause, json.dumps(data['trace']['ev'][step])[:500])
    return 1 if rejects else 0


def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = sum(ord(c) * 31**k for k, c in enumerate(os.environ['VERIF_SEED'][:6]))
    try:
        return Check(prop, tier, abs(seed) % 1000000).run()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
