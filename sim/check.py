"""Check one property:  python -m sim.check C01   (run in /verif)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_WORKERS.
Exit 0: held on every run; 1: VIOLATION line printed; 2: error of the check.
"""
import concurrent.futures
import json
import os
import subprocess
import sys
import time

from . import kernel as K

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
BATCHES = {'quick': 16, 'thorough': 64}
WALL = {'quick': 240.0, 'thorough': 1500.0}


def _env(salt):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONHASHSEED=str(K.seed_of('pyhash', salt) % 4294967295),
             PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF, PYTHONUNBUFFERED='1')
    return e


def zygote(req, timeout):
    """Run one zygote process; returns its JSON lines."""
    p = subprocess.run([PY, '-m', 'sim.runner'], input=json.dumps(req), text=True,
                       capture_output=True, env=_env(req['salt']), cwd=VERIF, timeout=timeout)
    lines = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
    if not lines or 'done' not in lines[-1]:
        raise RuntimeError(f'zygote failed (exit {p.returncode}):\n{p.stderr[-4000:]}')
    return lines[:-1]


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def save_replay(pid, salt, case, viol, extra):
    d = os.environ.get('VERIF_REPLAYS', os.path.join(VERIF, 'replays'))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{viol['kind'].replace('/', '_')}-{case['run_salt']:016x}.json")
    with open(path, 'w') as f:
        json.dump({'property': pid, 'salt': salt, 'violation': viol, 'case': case, **extra}, f,
                  indent=1, default=str)
        f.write('\n')
    return path


def main(argv):
    pid = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BATCHES:
        tier = 'quick'
    workers = int(os.environ.get('VERIF_WORKERS', str(os.cpu_count() or 4)))
    t0 = time.monotonic()
    # property metadata lives beside its code but must be readable without hwtypes
    meta = json.load(open(os.path.join(HERE, 'props', 'meta.json')))[pid]
    runs = int(os.environ.get('VERIF_RUNS', meta['runs'][tier]))
    nb = max(1, min(BATCHES[tier], runs))
    per = (runs + nb - 1) // nb
    wall = float(os.environ.get('VERIF_WALL', WALL[tier]))
    print(f'{pid}: seed={seed} tier={tier} runs={runs} batches={nb} workers={workers}', flush=True)

    def batch(b):
        left = wall - (time.monotonic() - t0)
        if left <= 2:
            return b, []
        salt = K.seed_of('zygote', seed, pid, b)
        req = {'cmd': 'batch', 'prop': pid, 'seed': seed, 'tier': tier, 'batch': b,
               'first': b * per, 'count': min(per, runs - b * per), 'salt': salt, 'wall_s': left}
        return b, zygote(req, timeout=left + 200) if req['count'] > 0 else []

    results = []
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for b, rs in ex.map(batch, range(nb)):
            results.extend((b, r) for r in rs)
    known = known_findings(pid)
    errors = [r for _, r in results if r.get('error')]
    viols = [(b, r) for b, r in results if r.get('viol')]
    real, listed = [], []
    for b, r in viols:
        k = next((k for k in known if k['kind'] == r['viol']['kind']
                  and k.get('match', '') in json.dumps(r['viol'])), None)
        (listed if k else real).append((b, r, k))
    clean = [r for _, r in results if not r.get('error')]
    evidence(pid, meta, seed, tier, clean, len(real), time.monotonic() - t0, workers)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if real:
        real.sort(key=lambda x: x[1]['i'])
        b, r, _ = real[0]
        salt = K.seed_of('zygote', seed, pid, b)
        case = dict(r['case'], decisions=r['decisions'])
        kind = r['viol']['kind']
        extra = {'verif_seed': seed, 'run': r['i'], 'batch': b, 'minimised': False}
        viol = r['viol']
        try:
            m = {'ok': False} if kind == 'hang' else zygote({'cmd': 'minimise', 'prop': pid, 'salt': salt, 'case': case, 'kind': kind,
                        'budget_s': float(os.environ.get('VERIF_MIN_S', '60'))}, 400)[0]
            if m['ok']:
                small = {'i': case['i'], 'run_salt': case['run_salt'], 'plan': m['plan'],
                         'decisions': m['decisions']}
                # confirm in a fresh process
                c = zygote({'cmd': 'replay', 'prop': pid, 'salt': salt, 'items': [small]}, 300)[0]
                if c.get('viol') and c['viol']['kind'] == kind:
                    case, viol = small, c['viol']
                    extra.update(minimised=True, tries=m['tries'], size_from=m['from'], size_to=m['to'],
                                 trace=c['trace'])
        except Exception as e:                                   # report unminimised
            extra['minimise_error'] = str(e)[-500:]
        path = save_replay(pid, salt, case, viol, extra)
        print(f"{pid}: run {r['i']} of seed {seed}: {viol['kind']}: {viol['msg']}")
        print('  ' + json.dumps(viol.get('info'), default=str)[:2000])
        print(f'  ops+decisions {extra.get("size_from")} -> {extra.get("size_to")}; '
              f'replay: {PY} -m sim.replay {path}')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
        return 1
    if errors:
        print(f'{pid}: error of the check:\n{errors[0]["error"]}', file=sys.stderr)
        return 2
    if not clean:
        print(f'{pid}: no run finished', file=sys.stderr)
        return 2
    print(f'{pid}: held on {len(clean)} runs in {time.monotonic() - t0:.1f} s')
    return 0


def evidence(pid, meta, seed, tier, rs, nviol, wall, workers):
    faults, probes = {}, {}
    for r in rs:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
    scheds = {r['sched'] for r in rs}
    nontriv = {(r['plan_id'], r['sched']) for r in rs if r['nontrivial']}
    cov = {
        'evaluations': len(rs),
        'distinct_nontrivial': len(nontriv),
        'rule': meta['rule'],
        'samples': [r['sample'] for r in rs if r.get('sample')][:3],
        'runs_per_hour': round(len(rs) / max(wall, 1e-9) * 3600),
        'seeds_per_hour': round(len(rs) / max(wall, 1e-9) * 3600),
        'workers': workers,
        'operations': sum(r['ops'] for r in rs),
        'scheduler_events (simulated time)': sum(r['steps'] for r in rs),
        'context_switches': sum(r['switches'] for r in rs),
        'collections_injected': sum(r['gcs'] for r in rs),
        'lock_blocks': sum(r['blocks'] for r in rs),
        'faults_fired': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_interleavings': len(scheds),
        'interleaving_measure': 'distinct digests of the sequence of (client, code location, next client) '
                                'of all switches and collections of a run',
        'real_components': meta.get('real', 'hwtypes (all), pysmt, gmpy2, z3, CPython weakref/gc'),
        'stub_components': meta.get('stub', 'thread scheduler, threading.Lock/RLock, gc trigger, class hashes, '
                                    'random source; pysmt/gmpy2/z3 calls run real code but are not preempted'),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
    d = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
