"""Sensitivity test: small changes of hwtypes that break a property.

  python tools/mutants.py [PROP|ID ...]     (needs /repo; works in a scratch copy)

For each mutant: is it invisible to the repository's tests, and does the check
of its property (quick tier) report it?  Not used by any check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable


def load():
    out = []
    d = os.path.join(HERE, 'mutants')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            ns = {}
            exec(open(os.path.join(d, f)).read(), ns)
            out += [(f[:-3].upper(), *m) for m in ns['MUTANTS']]
    return out


def main(args):
    todo = [m for m in load() if not args or m[0] in args or m[1] in args]
    for prop, mid, edits in todo:
        tmp = tempfile.mkdtemp(prefix='mutant-')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            ok = True
            for file, old, new in edits:
                p = os.path.join(repo, 'hwtypes', file)
                s = open(p).read()
                if old not in s:
                    print(f'{prop} {mid}: does not apply: {old!r}', flush=True)
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            try:
                t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=repo,
                                   capture_output=True, text=True, timeout=100)
                hidden = t.returncode == 0
            except subprocess.TimeoutExpired:
                hidden = False
            if not hidden:
                print(f'{prop} {mid}: the tests fail', flush=True)
                continue
            t0 = time.time()
            c = subprocess.run([PY, '-m', 'sim.check', prop], cwd=os.path.dirname(HERE), capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_REPLAYS=os.path.join(tmp, 'rp'),
                                        VERIF_MIN_S='5', VERIF_EVIDENCE=os.path.join(tmp, 'ev')))
            dt = time.time() - t0
            line = next((x for x in c.stdout.splitlines() if ': run ' in x), '')
            verdict = {0: 'MISSED', 1: 'caught'}.get(c.returncode, f'NO ANSWER {c.returncode}')
            print(f'{prop} {mid}: {verdict} ({dt:.0f} s) {line[:150]}', flush=True)
            if c.returncode not in (0, 1):
                print(c.stdout[-800:], c.stderr[-800:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
