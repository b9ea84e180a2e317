"""
Falsifies traces, one way per property and module: FUNCS[property, module] gets
a trace and a random number generator, changes the trace so that it violates the
property, and returns True, or False if this trace does not lend itself to it.
"""

INF = 2000000000

def events(t, op, **kw):
    return [e for e in t['ev'] if e['op'] == op and all(e.get(k) == v for k, v in kw.items())]

def _wins(t):
    """Evaluations whose challenger was seen to become a member."""
    return [e for e in events(t, 'eval') if e['t']]

def staleRead(t, rng):
    """A challenger built from a member's state before its challenge was decided."""
    c = t['cfg']
    if c['fden'] == 0 or c['cr'] in (0, 100) or c['cons'] or c['np'] < 5: return False
    pop = [m['v'] for m in c['pop']]
    changed = {}
    gen = 0
    snap = list(pop)
    for e in t['ev']:
        if e['op'] == 'gen': return False
        if e['op'] == 'quiet':
            for k, m in enumerate(e['pop']):
                if m['v'] != snap[k]: changed[k] = snap[k]
        if e['op'] == 'eval' and e['t'] and changed:
            for k, old in changed.items():
                if k >= e['t']-1: continue
                others = [j for j in range(c['np']) if j not in (k, e['t']-1)]
                if c['base'] == 0: continue
                x, y = others[:2]
                v = [b + ((p-q)*c['fnum'])//c['fden'] for b, p, q in zip(old, snap[x], snap[y])]
                if any(z < lo or z > hi for z, lo, hi in zip(v, c['lo'], c['hi'])): continue
                if x in changed or y in changed: continue
                e['v'] = v
                return True
    return False

def recipe(t, rng):
    es = [e for e in events(t, 'eval') if e['t']]
    if not es or t['cfg']['fden'] == 0: return False
    e = rng.choice(es)
    for d in range(len(e['v'])): e['v'][d] += 3
    lo, hi = t['cfg']['lo'], t['cfg']['hi']
    return all(a <= v <= b for v, a, b in zip(e['v'], lo, hi)) and hi[0]-lo[0] > 10000

def member(t, rng):
    es = [e for e in events(t, 'quiet') if e['pop']]
    if not es: return False
    rng.choice(es)['pop'][0]['s'] += 1
    return True

def generation(t, rng):
    es = events(t, 'gen')
    if not es or t['cfg']['np'] < 5: return False
    k = t['ev'].index(es[0])
    for j in range(k-1, -1, -1):
        if t['ev'][j]['op'] == 'eval' and t['ev'][j]['t']:
            ID = t['ev'][j]['id']
            t['ev'] = [e for n, e in enumerate(t['ev']) if n != j and not (e['op'] == 'res' and e['id'] == ID)]
            return True
    return False

def limit(t, rng):
    es = [e for e in events(t, 'eval') if e['t']]
    if not es: return False
    e = rng.choice(es)
    e['x'] = 12345 if e['x'] == -1 else e['x'] + 1
    return True

def outside(t, rng):
    """A value past its upper bound."""
    es = [e for e in events(t, 'eval') if e.get('t', 1)]
    if not es: return False
    e = rng.choice(es)
    d = rng.randrange(len(e['v']))
    e['v'][d] = t['cfg']['hi'][d] + 1
    return True

def outOfBoundsOfSetup(t, rng):
    es = events(t, 'eval')
    if not es: return False
    if t['cfg']['ncons'] and rng.random() < 0.5: rng.choice(es)['sat'] = False
    else: outside(t, rng)
    return True

def setupMember(t, rng):
    es = [e for e in events(t, 'quiet') if e['pop']]
    if not es: return False
    rng.choice(es)['pop'][0]['s'] += 1
    return True

def thawed(t, rng):
    """A member changed after an abort (or a fatal result)."""
    ks = [k for k, e in enumerate(t['ev']) if e['op'] == 'abort']
    if not ks: return False
    es = [e for e in t['ev'][ks[0]:] if e['op'] == 'quiet' and e['pop']]
    if not es: return False
    e = es[-1]
    e['pop'] = [dict(m) for m in e['pop']]
    e['pop'][-1]['s'] += 1
    return True

def fatalMember(t, rng):
    """The individual of a fatal evaluation told of as the best."""
    rs = [e for e in events(t, 'res') if e['kind'] in ('neg', 'raise', 'fail')]
    if not rs: return False
    ev = events(t, 'eval', id=rs[0]['id'])[0]
    others = [e for e in events(t, 'eval') if e['v'] == ev['v']]
    if len(others) > 1: return False
    t['ev'].insert(t['ev'].index(rs[0])+1, dict(op='told', v=ev.get('vid', ev['v']), s=0, slow=False))
    return True

def begunLate(t, rng):
    """An evaluation begins only after the first quiet moment."""
    ev = t['ev']
    if not t['cfg'].get('plan', True): return False
    k = next((k for k, e in enumerate(ev) if e['op'] == 'quiet'), 0)
    while k < len(ev)-1 and not any(e['op'] == 'eval' for e in ev[:k]):
        k = next((j for j in range(k+1, len(ev)) if ev[j]['op'] == 'quiet'), len(ev))
    now = {e['id'] for e in ev[:k] if e['op'] == 'res'}
    es = [e for e in ev[:k] if e['op'] == 'eval' and e['id'] not in now]
    if not es or any(e['op'] in ('abort', 'cons') for e in ev[:k]): return False
    e = rng.choice(es)
    ev.remove(e)
    ev.insert(k, e)
    return True

def stopLate(t, rng):
    """The last run's end comes a generation earlier or with another best."""
    es = events(t, 'end')
    if not es: return False
    es[-1]['best'] += 1
    return True

def handlers(t, rng):
    es = [e for e in t['ev'] if e.get('called')]
    if not es: return False
    e = rng.choice(es)
    e['called'] = e['called'] + e['called'][:1]
    return True

def fvalue(t, rng):
    es = events(t, 'down') + events(t, 'up')
    if not es: return False
    rng.choice(es)['hi'] += 50
    return True

def score(t, rng):
    es = events(t, 'score')
    if len(es) < 3: return False
    es[-1]['x'] += 100
    return True

def symbol(t, rng):
    es = [e for e in t['ev'] if e.get('out')]
    if not es: return False
    e = rng.choice(es)
    e['out'] = ['q'] + e['out'][1:]
    return True

def toldAgain(t, rng):
    """One more telling of what was told last."""
    es = [k for k, e in enumerate(t['ev']) if e['op'] == 'fin' and e['kind'] == 'none']
    es2 = [e for e in t['ev'] if e['op'] == 'told']
    if not es or not es2 or events(t, 'abort'): return False
    t['ev'].insert(es[0], dict(es2[0], cb=1))
    return True

def forgiven(t, rng):
    """The fitness of an individual complained about is as before."""
    rs = {e['id']: e['s'] for e in events(t, 'report')}
    es = [(m, rs[m['id']]) for e in events(t, 'quiet') for m in e['pop'] if m['s'] == INF and rs.get(m['id'], INF) != INF]
    if not es or events(t, 'abort'): return False
    m, s = rng.choice(es)
    m['s'] = s
    return True

def recorded(t, rng):
    """A record with another fitness."""
    es = [e for e in events(t, 'quiet') if e['rows']]
    if not es: return False
    rng.choice(es)['rows'][-1]['s'] += 1
    return True

def labelled(t, rng):
    """A member's record labelled as a former member's."""
    es = [e for e in events(t, 'quiet') if e['pop'] and e['labels']]
    if not es: return False
    e = rng.choice(es)
    e['former'] = e['former'] + [e['pop'].pop()]
    return True

def answered(t, rng):
    es = [e for e in events(t, 'query') if e['rows']]
    if not es: return False
    e = rng.choice(es)
    if rng.random() < 0.5: e['rows'].pop()
    else: e['rows'][0][0] += 1
    return True

def sampled(t, rng):
    es = [e for e in events(t, 'sample') if e['got']]
    if not es: return False
    e = rng.choice(es)
    e['got'][0] = e['excl'][0] if e['excl'] else 99
    return True

def ranked(t, rng):
    es = [e for e in events(t, 'see') if len(set(m['s'] for m in e['members'])) > 1]
    if not es: return False
    e = rng.choice(es)
    if rng.random() < 0.5:
        e['ks'] = e['ks'][::-1]
        e['sorted'] = e['sorted'][::-1]
    else: e['members'][0]['s'] += 1
    return True

def early(t, rng):
    """A request granted before the one that it waits for is released."""
    L = t['ev']
    for k in range(1, len(L)):
        if L[k]['op'] == 'grant' and L[k-1]['op'] == 'release' and not events(t, 'abort'):
            L[k-1], L[k] = L[k], L[k-1]
            return True
    return False

def parsed(t, rng):
    es = [e for e in events(t, 'loaded') if e['all']]
    if not es: return False
    x = rng.choice(rng.choice(es)['all'])
    if rng.random() < 0.5: x['path'][-1]['int'] = not x['path'][-1]['int']
    else: x['v']['list'] = not x['v']['list']
    return True

def misapplied(t, rng):
    es = [e for e in events(t, 'check') if e['calls']]
    if not es: return False
    e = rng.choice(es)
    if rng.random() < 0.5: e['got'] = not e['got']
    else: e['calls'][0]['params'].append(dict(n='zz', v=1))
    return True

def misprinted(t, rng):
    es = [e for e in events(t, 'call') if e['call'] == 'line' and e['out'] and not e['failed']]
    if not es: return False
    e = rng.choice(es)
    if rng.random() < 0.5: e['out'].pop()
    else: e['out'] = [dict(e['out'][0], t='\n'), dict(e['out'][0], t='\n'), dict(e['out'][0], t='\n')] + e['out']
    return True

def slowFirst(t, rng):
    """Two parts of clearly different speed yielded the wrong way round."""
    total, n, calls = {}, {}, []
    for k, e in enumerate(t['ev']):
        if e['op'] == 'call': calls.append(e)
        elif e['op'] == 'done':
            c = calls[e['call']-1]
            total[c['id']] = total.get(c['id'], 0) + e['t'] - c['t']
            n[c['id']] = n.get(c['id'], 0) + 1
        elif e['op'] == 'start' and k+2 < len(t['ev']):
            a, b = t['ev'][k+1:k+3]
            if a['op'] == b['op'] == 'next' and total[a['id']]*n[b['id']] < total[b['id']]*n[a['id']]:
                a['id'], b['id'] = b['id'], a['id']
                return True
    return False

def overwritten(t, rng):
    there = {}
    for e in t['ev']:
        if e['op'] == 'put': there[e['n']] = e['c']
        elif e['op'] == 'remove': there.pop(e['n'], None)
        elif e['op'] == 'wipe': there = {}
        elif e['op'] == 'extract' and there:
            n = rng.choice(sorted(there))
            for x in e['user']:
                if x['n'] == n: x['c'] += 1000
            return True
    return False

def misread(t, rng):
    es = events(t, 'compare')
    if es and rng.random() < 0.5:
        e = rng.choice(es)
        e['eq'] = not e['eq']
        e['ne'] = not e['ne']
        return True
    es = events(t, 'read')
    if not es: return False
    e = rng.choice(es)
    if rng.random() < 0.5: e['named'][0] += 1
    else: e['hash2'] += '1'
    return True

def lost(t, rng):
    es = [e for e in events(t, 'load') if e['ok'] and e['snap']['members']]
    if not es: return False
    e = rng.choice(es)
    x = rng.random()
    if x < 0.4: e['snap']['members'][0]['s'] += 1
    elif x < 0.7: e['snap']['members'].pop()
    else: e['snap']['hist'] = e['snap']['hist'][1:] + ['other']
    return True

def wrongOne(t, rng):
    """Not one of two equal records went but another."""
    plain = lambda r: (r['s'], tuple(r['v']))
    was, new, found = [], None, []
    for e in t['ev']:
        if e['op'] == 'add': new = e
        elif e['op'] == 'seen':
            if new and len(was) >= t['cfg']['nmax']:
                rest = [r for r in was if r['l'] != 'pop']
                twins = [r for r in rest if sum(plain(q) == plain(r) for q in rest) > 1]
                gone = [r for r in twins if e['recs'].count(r) < was.count(r) and plain(r) != plain(new)]
                keep = [r for r in rest if r not in twins and r in e['recs']]
                if gone and keep: found.append((e, gone[0], keep[0]))
            was, new = e['recs'], None
    if not found: return False
    e, gone, keep = rng.choice(found)
    e['recs'] = [dict(r) for r in e['recs']]
    e['recs'].remove(keep)
    e['recs'].append(dict(gone))
    return True

def sameSlice(t, rng):
    """Two successive candidates in the same slice of the first parameter."""
    if t['cfg']['np'] < 3 or len(t['ev']) < 3 or not t['ev'][0].get('latin'): return False
    if t['ev'][1]['op'] != 'draw' or t['ev'][2]['op'] != 'draw': return False
    t['ev'][2]['cell'][0] = t['ev'][1]['cell'][0]
    return True

def misreadValue(t, rng):
    """A printed value with the wrong stars, or a parameter left out."""
    found = [e for e in t['ev'] if e['op'] == 'values' and e['got']]
    if not found: return False
    e = rng.choice(found)
    if rng.random() < 0.5: e['got'] = e['got'][:-1]
    else:
        e['got'] = [dict(g) for g in e['got']]
        g = rng.choice(e['got'])
        g['v'] += 1
    return True

def wrongRows(t, rng):
    """A summary without its best row, or one value too high."""
    found = [e for e in t['ev'] if e['op'] == 'show' and not e['failed'] and e['rows'] and e['cols']]
    if not found: return False
    e = rng.choice(found)
    if rng.random() < 0.5: e['rows'] = e['rows'][:-1]
    else:
        e['rows'] = [dict(r, v=list(r['v'])) for r in e['rows']]
        rng.choice(e['rows'])['v'][0] += 1
    return True

def wrongPoint(t, rng):
    """A point of the wrong value or a subplot left out."""
    found = [e for e in t['ev'] if e['op'] == 'plot' and not e['failed'] and e['figs'] and e['figs'][0]]
    if not found: return False
    e = rng.choice(found)
    points = [p for x in e['figs'] for s in x for l in s['lines'] for p in l]
    if points and rng.random() < 0.5: rng.choice(points)['v'] += 1
    else: e['figs'][0] = e['figs'][0][1:]
    return True

def weakPair(t, rng):
    """A coefficient or point that's wrong."""
    found = [e for e in t['ev'] if e['op'] == 'corr' and not e['failed'] and e['subs']]
    if not found: return False
    s = rng.choice(rng.choice(found)['subs'])
    if rng.random() < 0.5: s['r'] += 5
    else: s['pts'].append(dict(x=77, y=77, z=5))
    return True

def otherValue(t, rng):
    """An option with another value."""
    found = [e for e in t['ev'] if e['op'] == 'get' and not e['exits']]
    if not found: return False
    e = rng.choice(found)
    e['got'] = dict(e['got'], v=e['got']['v'] + '1')
    return True

def otherTime(t, rng):
    """A row of another time."""
    found = [e for e in t['ev'] if e['op'] == 'load' and e['t']]
    if not found: return False
    e = rng.choice(found)
    k = rng.randrange(len(e['t']))
    e['t'] = [x + (j == k) for j, x in enumerate(e['t'])]
    return True

def otherSetting(t, rng):
    """A setting that isn't as given, or another number of members."""
    found = [e for e in t['ev'] if e['op'] in ('run', 'pop') and not e['refused']]
    if not found: return False
    e = rng.choice(found)
    if e['op'] == 'pop': e['np'] += 1
    else:
        k = rng.randrange(len(e['got']))
        e['got'] = [dict(x, v=x['v'] + '1') if j == k else x for j, x in enumerate(e['got'])]
    return True

def startedAgain(t, rng):
    """A viewer that wasn't started, or one started once more."""
    found = [e for e in t['ev'] if e['op'] in ('written', 'ended') and e['spawned']]
    if not found: return False
    e = rng.choice(found)
    e['spawned'] = rng.choice([[], e['spawned']*2])
    return True

FUNCS = {
    ('C40', 'Viewer'): startedAgain,
    ('C38', 'Settings'): otherSetting,
    ('C37', 'Series'): otherTime,
    ('C36', 'Options'): otherValue,
    ('C35', 'Plots'): weakPair,
    ('C34', 'Plots'): wrongPoint,
    ('C33', 'Summary'): wrongRows,
    ('C32', 'Readable'): misreadValue,
    ('C31', 'Latin'): sameSlice,
    ('C30', 'Thin'): wrongOne,
    ('C18', 'Store'): lost,
    ('C29', 'Indiv'): misread,
    ('C28', 'Extract'): overwritten,
    ('C25', 'Timer'): slowFirst,
    ('C24', 'Log'): misprinted,
    ('C23', 'Constrain'): misapplied,
    ('C22', 'SpecFile'): parsed,
    ('C19', 'Rank'): sampled,
    ('C20', 'Rank'): ranked,
    ('C21', 'Locks'): early,
    ('C16', 'Roster'): recorded,
    ('C17', 'Roster'): labelled,
    ('C27', 'Roster'): answered,
    ('C39', 'Run'): begunLate,
    ('C39', 'Setup'): begunLate,
    ('C14', 'Report'): toldAgain,
    ('C15', 'Report'): forgiven,
    ('C07', 'Stop'): stopLate,
    ('C10', 'Abort'): handlers,
    ('C11', 'FAdapt'): fvalue,
    ('C12', 'Score'): score,
    ('C13', 'Classify'): symbol,
    ('C04', 'Run'): outside,
    ('C04', 'Setup'): outOfBoundsOfSetup,
    ('C05', 'Setup'): setupMember,
    ('C08', 'Run'): thawed,
    ('C08', 'Setup'): thawed,
    ('C09', 'Run'): fatalMember,
    ('C09', 'Setup'): fatalMember,
    ('C01', 'Run'): staleRead,
    ('C02', 'Run'): recipe,
    ('C03', 'Run'): member,
    ('C06', 'Run'): generation,
    ('C26', 'Run'): limit,
}
