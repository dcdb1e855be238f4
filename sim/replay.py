"""Replay a violation file:  python -m sim.replay FILE [--events]

Exit 1 if the violation is reproduced, 0 if the run is clean, 2 on error."""
import json
import sys

from .check import zygote


def main(argv):
    d = json.load(open(argv[0]))
    r = zygote({'cmd': 'replay', 'prop': d['property'], 'salt': d['salt'], 'items': [d['case']],
                'events': '--events' in argv}, 600)[0]
    for e in r.get('events', []):
        print(e)
    if r.get('error'):
        print(r['error'], file=sys.stderr)
        return 2
    if r.get('viol'):
        print(json.dumps(r['viol'], indent=1))
        print(f"trace {r['trace']} (recorded {d.get('trace')})")
        print(f"VIOLATION property={d['property']} replay={argv[0]}")
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
