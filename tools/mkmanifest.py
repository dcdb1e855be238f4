"""Regenerate MANIFEST.json from properties.jsonl and sim/props/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
meta = json.load(open(os.path.join(V, 'sim/props/meta.json')))
PY = '/opt/venv/bin/python'
PURE = {
 'N01': 'Concrete arithmetic is a pure function of two integers and a width: no schedule, clock, I/O, fault, collection or history enters it, so simulation would only be input sampling under another name. (What interleaving can do to it is decided under C14.)',
 'N02': 'Agreement of concrete and symbolic operators is a pure input/output relation (a job for an SMT solver or for sampling); nothing here is scheduled or can fail.',
 'N03': 'Encoding and decoding a bit pattern is a pure function of the pattern and the format; the only ambient input, the numeric context, is covered by C06 and C07.',
 'N04': 'Membership and enumeration of algebraic types are pure functions of the definition; the stateful side (writes, caches, concurrent use) is covered by C01, C02, C08 and C14.',
 'N05': 'The meaning of if-then-else is a pure function of selector and branches; its dependence on hash order and on threads is covered by C10 and C14.',
 'N06': 'Formula constructors are pure tree functions without state, time or faults.',
 'N07': 'Operand checking is a pure function of the operands; there is no schedule or fault for it to depend on.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in meta:
        checks.append({
            'property': i,
            'quick_cmd': f'{PY} -m sim.check {i}',
            'thorough_cmd': f'VERIF_TIER=thorough {PY} -m sim.check {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection (seeded scheduler, GC, failing callbacks; reference-model oracle)',
            'level': 'exploration',
            'level_note': meta[i]['level_note'],
        })
    else:
        na.append({'property': i, 'reason': PURE.get(i, 'not claimed (no check registered)')})
m = {
 'version': 1,
 'setup_cmd': f'{PY} -c "import hwtypes, gmpy2, pysmt, z3" && {PY} -m compileall -q sim >/dev/null 2>&1; true',
 'checks': checks,
 'not_applicable': na,
 'notes': 'No hooks in /repo: every seam is an interpreter facility (sys.monitoring, threading.Lock, module random, '
          'metaclass __hash__) replaced inside the simulator process. hwtypes is imported from /repo\'s working tree '
          'by every check; nothing needs building. Genuine defects were repaired in /repo by "fix:" commits and are '
          'listed in known_findings.jsonl. Evidence counts simulated time in scheduler events: nothing in hwtypes '
          'reads a clock.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
