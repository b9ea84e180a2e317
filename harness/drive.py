"""
Runs one driver in a process of its own:

    drive.py DRIVER FAMILY N SEED PART PARTS BEHAVIOURS OUT

and writes the traces it recorded to OUT as JSON.
"""
import sys, json, importlib

def main():
    name, fam, n, seed, part, parts, beh, out = sys.argv[1:]
    drv = importlib.import_module('drv_' + name)
    behaviours = json.load(open(beh)) if beh != '-' else []
    traces = drv.drive(fam, int(n), int(seed), behaviours, int(part), int(parts))
    with open(out, 'w') as fh:
        json.dump({'module': drv.MODULE, 'traces': traces}, fh)

main()
