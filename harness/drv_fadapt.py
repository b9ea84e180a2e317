"""Reduces and increases the F of a run as FAdapt.tla describes."""
from base import *
from ade.de import FManager

MODULE = 'FAdapt'
M = 1000000

def scenario(seq, lo, hi, cr, N, adaptive, ops, tag, rng):
    """F limits as fractions; cr a fraction."""
    ev = []
    crit = math.sqrt((1 - 0.5*cr) / N)
    cfg = dict(seq=seq, lo=toInt(lo, M), hi=toInt(hi, M), cr=int(round(100*cr)), np=N,
               adaptive=bool(adaptive), crit=toInt(crit, M))
    def see(op):
        ev.append(dict(op=op, lo=toInt(fm.lowest, M), hi=toInt(fm.highest, M), limited=bool(fm.limited)))
        for k in range(2):
            ev.append(dict(op='get', f=toInt(fm.get(), M)))
    try:
        with watchdog(20):
            F = rng.choice([tuple, list])([lo, hi]) if seq else lo
            fm = FManager(F, cr, N, adaptive)
            see('new')
            for op in ops:
                getattr(fm, op)()
                see(op)
    except Hang:
        ev.append(dict(op='hang'))
        HANGS.append(1)
    except Exception as e:
        ev.append(dict(op='exc', what=excText(e)))
    return {'cfg': cfg, 'ev': ev, 'tag': tag}

def drive(fam, n, seed, beh, part=0, parts=1):
    quietly()
    rng = random.Random(seed)
    seedAll(seed)
    traces = []
    for k in range(n):
        if enough(): break
        seq = rng.random() < 0.6
        lo = rng.choice([0.5, 0.3, 0.8, 1.0, 0.12, 0.9, rng.uniform(0.05, 1.2)])
        if seq and rng.random() < 0.15: lo = 0
        hi = rng.choice([lo, lo + rng.uniform(0.01, 0.5), rng.uniform(lo, 1.9), 4*lo if lo and lo < 0.45 else lo + 0.1]) if seq else lo
        if lo == 0: hi = rng.choice([1, 0.9, 1.5])
        cr = rng.choice([0.8, 0.0, 1.0, 0.5, 0.9, 0.15])
        N = rng.choice([4, 5, 10, 20, 50, 100, 500])
        bias = rng.choice([0.3, 0.5, 0.8, 0.95])
        ops, up = [], False
        for j in range(rng.choice([5, 20, 60])):
            ops.append('down' if rng.random() < bias else 'up')
        if rng.random() < 0.3: ops = ['down']*30 + ['up']*rng.randint(1, 4) + ['down']*3 + ['up']*40
        if k % parts == part:
            traces.append(scenario(seq, lo, hi, cr, N, rng.random() < 0.85, ops, 'random', rng))
    for k, b in enumerate(beh):
        if enough(): break
        c = b['cfg']
        if k % parts == part:
            traces.append(scenario(c['seq'], c['lo']/1000.0, c['hi']/1000.0, c['cr']/100.0, c['np'],
                                   k % 17 != 16, [x for x in b['ops'] if x != 'end'], 'behaviour', rng))
    return traces
