"""Writes MANIFEST.json from harness/registry.py."""
import sys, os, json
sys.dont_write_bytecode = True
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from registry import PROPS

def technique(p):
    mods = sorted({m for m, c in PROPS[p].get('models', []) + PROPS[p].get('more', [])}
                  | {g['module'] for s in PROPS[p]['sources'] for g in s.get('gen', [])})
    return "TLA+ (TLC): " + (
        "models %s explored by TLC; " % ', '.join(mods) if mods else "") + \
        "traces of the real code replaying generated schedules and inputs, validated step by step by TLC"

data = dict(
    version=1,
    setup_cmd="bash tools/setup.sh",
    checks=[dict(
        property=p,
        quick_cmd="python3 harness/check.py %s quick" % p,
        thorough_cmd="python3 harness/check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique=technique(p),
        level='model_checking',
        level_note=PROPS[p].get('note', "Design model checked exhaustively for small constants; the code is bound to "
                   "the specification by validating recorded traces, so for the code the result "
                   "covers the schedules and inputs driven."))
        for p in sorted(PROPS)],
    notes="Randomness is seeded by VERIF_SEED. known_findings.txt lists repaired defects.")
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(data, fh, indent=1)
    fh.write('\n')
