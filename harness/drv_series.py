"""Writes and loads compressed time series, as Series.tla describes."""
import bz2, tempfile, shutil
from base import *
from ade.examples.data import TimeData

MODULE = 'Series'


def load(rng, scratch, cfg):
    """Writes a file of those rows and has it loaded."""
    lines = []
    for r in cfg['rows']:
        if r['note']: lines.append(rng.choice(['# a comment, with a comma', '#', '#%d,1,2' % r['t']]))
        else:
            fields = [rng.choice(['%d', '%d.0', '%de0'] ) % x for x in [r['t']] + r['x']]
            if rng.random() < 0.2: fields = ['"%s"' % x for x in fields]
            lines.append(','.join(fields))
    base = os.path.join(scratch, 'series')
    with bz2.open(base + '.csv.bz2', 'wt') as fh: fh.write('\n'.join(lines) + '\n')
    # What is left out goes by its row number in the file
    drop = set(tuple([r['t']] + r['x']) for r in cfg['rows'] if not r['keep'] and not r['note'])
    class Data(TimeData):
        basename = base
        ranges = [(a, None if b == -1 else b) for a, b in cfg['ranges']]
        def includeRow(self, row): return tuple(int(float(x)) for x in row) not in drop
        def setWeights(self): self.weights = np.ones(len(self.X))
    data, got = Data(), []
    d = data.setup()
    d.addCallbacks(lambda _: got.append(True), lambda f: got.append(False))
    if got != [True]: return dict(failed=True, t=[], x=[], weights=0)
    return dict(failed=False, t=vec(data.t), x=[vec(x) for x in data.X], weights=len(data.weights))

def run(seed, scratch, cfg, tag):
    rng, ev = random.Random(seed), []
    try:
        with watchdog(30): ev.append(dict(op='load', **load(rng, scratch, cfg)))
    except Hang:
        ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        ev.append(dict(op='exc', what=excText(e)))
    return {'cfg': cfg, 'ev': ev, 'tag': tag}

def random1(seed, scratch):
    rng = random.Random(seed)
    n, nx = rng.choice([1, 3, 8, 25]), rng.choice([1, 2, 4])
    top = rng.choice([3, 100, 100000])
    rows = [dict(note=rng.random() < 0.15, keep=True, t=rng.randint(-top, top), x=[k] + [rng.randint(-99, 99) for j in range(nx-1)])
            for k in range(n)]
    if rng.random() < 0.5: rows.sort(key=lambda r: r['t'])
    if rng.random() < 0.4:
        for r in rows: r['keep'] = rng.random() < 0.7
    rows.append(dict(note=False, keep=True, t=rng.randint(-top, top), x=[n]*nx))
    ranges = []
    for k in range(rng.choice([0, 0, 1, 2, 3])):
        a = rng.randint(0, n)
        ranges.append([a, rng.choice([-1, a, a + rng.randint(1, 5), a + rng.randint(1, n)])])
    return run(seed, scratch, dict(rows=rows, ranges=ranges), 'random')

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    traces = []
    scratch = tempfile.mkdtemp(prefix='series-')
    try:
        for k in range(n):
            if enough(): break
            if k % parts == part: traces.append(random1(seed*100003 + k, scratch))
        for k, b in enumerate(beh):
            if enough(): break
            if k % parts == part: traces.append(run(seed*100003 + k, scratch, b, 'behaviour'))
        return traces
    finally: shutil.rmtree(scratch, ignore_errors=True)
