"""Self-test of the simulator: one seed is one exactly repeatable execution.

  python tools/determinism.py [PROP ...] [--runs N] [--seed S]

Every run of a batch is executed in three ways - in one zygote in order, again
in another zygote while the machine is kept busy, and one zygote per quarter of
the batch (so with another process history) - and once more from its recorded
decisions.  All four trace digests must be equal.  Not a check of a property.
"""
import argparse
import concurrent.futures
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import check, kernel as K                                   # noqa: E402

KEYS = ('trace', 'sched', 'steps', 'switches', 'gcs', 'plan_id', 'viol')


def key(r):
    return tuple(str(r.get(k)) for k in KEYS if k in r)


def one(pid, seed, n):
    salt = K.seed_of('zygote', seed, pid, 0)
    req = {'cmd': 'batch', 'prop': pid, 'seed': seed, 'tier': 'quick', 'batch': 0, 'salt': salt,
           'wall_s': 1e6, 'want_log': True, 'want_plan': True}
    a = check.zygote(dict(req, first=0, count=n), 3000)
    busy = [subprocess.Popen([sys.executable, '-c', 'while True: pass']) for _ in range(os.cpu_count() or 4)]
    try:
        b = check.zygote(dict(req, first=0, count=n), 3000)
    finally:
        for p in busy:
            p.kill()
            p.wait()
    q = max(1, n // 4)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        parts = list(ex.map(lambda f: check.zygote(dict(req, first=f, count=min(q, n - f)), 3000), range(0, n, q)))
    c = [r for p in parts for r in p]
    d = check.zygote({'cmd': 'replay', 'prop': pid, 'salt': salt,
                      'items': [dict(r['case'], decisions=r['decisions']) for r in a]}, 3000)
    bad = []
    for i, r in enumerate(a):
        ks = {key(r), key(b[i]), key(c[i])}
        if len(ks) > 1 or d[i]['trace'] != r['trace'] or d[i]['sched'] != r['sched']:
            bad.append((r['i'], sorted(ks), d[i]['trace']))
    print(f'{pid}: {len(a)} runs x 4 executions, {sum(r["switches"] for r in a)} switches: '
          + ('all equal' if not bad else f'{len(bad)} DIFFER, first {bad[0]}'), flush=True)
    return bad


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--runs', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    props = a.props or [f'C{i:02}' for i in range(1, 15)]
    sys.exit(1 if sum(len(one(p, a.seed, a.runs)) for p in props) else 0)
