"""C12: random values are valid, reproducible and reach the whole range.

Three kinds of run:
  'det'   the drawing client re-seeds the random module and draws, while the
          others (and it, between draws) do non-random work under hostile
          contexts, collections and failures.  The sequence must be the one a
          pristine fork draws from the same seed.
  'burst' the random source returns extreme answers; every value must be in range.
  'cover' a long sequence of one kind: every bit takes both values, small ranges
          are exhausted.
"""
import gmpy2

from .. import busy, fpmodel, fpwork, seams
from ..fpmodel import Fmt, NAN
from ..pristine import pristine
from ..typespec import HarnessError
from . import c01

ID = 'C12'
hw = None


def prepare():
    global hw
    import hwtypes
    fpwork.prepare()
    hw = hwtypes


FORMATS = [[8, 7], [8, 23], [5, 10], [3, 4], [2, 2], [4, 3], [3, 1], [11, 52], [15, 64], [6, 70]]
MODES = ['RNE', 'RTP', 'RTN', 'RTZ', 'RNA']


def gen_kind(r):
    x = r.random()
    if x < .12:
        return ['bit']
    if x < .55:
        return ['bv', r.choice(['BitVector', 'UIntVector', 'SIntVector', 'user', 'sized']),
                r.choice([1, 2, 3, 4, 5, 8, 13, 31, 32, 33, 53, 54, 64, 65, 100, 200])]
    return ['fp', *r.choice(FORMATS), r.choice(MODES), r.random() < .6, r.random() < .5, r.random() < .2]


def generate(r, tier):
    mode = r.choice(['det', 'det', 'det', 'burst', 'cover'])
    if mode == 'cover':
        return {'cfg': {'gran': 'none', 'p_switch': 0, 'p_gc': 0}, 'mode': mode, 'kind': gen_kind(r), 'n': 500,
                'seed': r.getrandbits(32), 'clients': []}
    kinds = [gen_kind(r) for _ in range(r.randint(1, 4))]
    g = {'fmts': [k[1:5] for k in kinds if k[0] == 'fp'] or [[5, 10, 'RNE', True]]}
    nc = 1 if mode == 'burst' else r.choice([1, 2, 2, 3])
    clients = []
    for c in range(nc):
        ops = []
        for j in range(r.randint(4, 14)):
            oid = f'c{c}.{j}'
            x = r.random()
            if c == 0 and x < .55:
                ops.append([oid, 'draw', r.choice(kinds)])
            elif c == 0 and x < .62:
                ops.append([oid, 'save'])
            elif c == 0 and x < .70:
                ops.append([oid, 'restore'])
            elif x < .78:
                how, a = fpwork.gen_amb(r, g)
                ops.append([oid, 'amb', how, a])
            elif x < .82:
                ops.append([oid, 'collect'])
            elif x < .86 and mode == 'burst':
                ops.append([oid, 'burst', [r.choice([0, 1, 1, None]) for _ in range(r.randint(1, 12))]])
            else:
                ops.append([oid, 'work', r.randrange(3000)])
        clients.append(ops)
    if mode == 'burst':
        clients[0].insert(0, ['c0.b', 'burst', [r.choice([0, 1, 1, None]) for _ in range(r.randint(1, 30))]])
    warm = [gen_kind(r) if r.random() < .6 else r.choice(kinds) for _ in range(r.choice([0, 0, 2, 6, 40]))]
    return {'cfg': c01.gen_cfg(r, nc), 'mode': mode, 'warm': warm, 'seed': r.getrandbits(32), 'clients': clients}


def draw(ctx, kind):
    """Draw one value; returns a plain description and checks its range."""
    if kind[0] == 'bit':
        v = hw.Bit.random()
        ctx.check(type(v) is hw.Bit, 'wrong-type', f'Bit.random gave {type(v)}')
        return int(bool(v))
    if kind[0] == 'bv':
        fam, w = kind[1], kind[2]
        if fam == 'user':
            class U(hw.BitVector):
                pass
            v, T = U.random(w), hw.BitVector
        elif fam == 'sized':
            v, T = hw.SIntVector[7].random(w), hw.SIntVector
        else:
            T = getattr(hw.bit_vector, fam)
            v = T.random(w)
        with ctx.atomic():
            u = v.as_uint()
            ctx.check(isinstance(v, T[w]), 'wrong-type', f'{fam}.random({w}) gave {type(v)}')
            ctx.check(0 <= u < (1 << w) and int(v.bits()[-1]) == u >> (w - 1), 'out-of-range', f'{v!r} is not in {T[w]}')
            if T is hw.SIntVector:
                ctx.check(-(1 << w - 1) <= int(v) < (1 << w - 1), 'out-of-range', f'{v!r} is not in {T[w]}')
        return u
    _, eb, mb, mode, ieee, inf, sub = kind
    f = Fmt(eb, mb, mode, ieee)
    T = hw.FPVector[eb, mb, getattr(fpwork.RM, mode), ieee]
    if sub:
        class T(T):
            pass
    v = T.random() if inf else T.random(allow_inf=False)
    with ctx.atomic():
        ctx.check(type(v) is T, 'wrong-type', f'{T}.random gave {type(v)}')
        p = int(v.reinterpret_as_bv())
        d = f.decode(p)
        ctx.check(d != NAN, 'out-of-range', f'random drew NaN in {f.key()}')
        ctx.check(inf or d[0] != 'inf', 'out-of-range', f'random drew an infinity in {f.key()} with allow_inf=False')
        ctx.check(f.from_pattern(p) == d, 'out-of-range', f'{v!r} is not a value of {f.key()}')
    return p


class _Plain:
    """Context of draws made outside a simulated run (pristine fork)."""

    def check(self, *a, **k):
        pass

    def atomic(self):
        import contextlib
        return contextlib.nullcontext()


def drawing_ops(plan):
    return [op for op in plan['clients'][0] if op[1] in ('draw', 'save', 'restore')] if plan['clients'] else []


def step(ctx, op, saved, out):
    import random
    if op[1] == 'draw':
        out.append(draw(ctx, op[2]))
    elif op[1] == 'save':
        saved.append(random.getstate())
    elif saved:
        random.setstate(saved[-1])


def reference(plan):
    import random

    def fn():
        seams.HASHES.salt = 1
        random.seed(plan['seed'])
        saved, out = [], []
        for op in drawing_ops(plan):
            step(_Plain(), op, saved, out)
        return out
    res = pristine(fn)
    if 'error' in res:
        # the simulated run will meet the same failure and judge it
        return None
    return res['ok']


def run(ctx, plan):
    import random
    mode = plan['mode']
    if mode == 'cover':
        return cover(ctx, plan)
    want = reference(plan) if mode == 'det' else None
    for kind in plan['warm']:
        draw(ctx, kind)
    random.seed(plan['seed'])
    got, saved = [], []
    n = [0]

    def do(tid, op):
        if op[1] in ('draw', 'save', 'restore'):
            before = len(got)
            step(ctx, op, saved, got)
            if len(got) > before:
                n[0] += 1
                ctx.note('drew', op[0], got[-1])
                if want is not None:
                    ctx.check(got[-1] == want[before], 'not-reproducible',
                              f'draw {before} of the sequence is {got[-1]:#x}, a fresh process with the same state '
                              f'of the random module draws {want[before]:#x}', op=op)
        elif op[1] == 'amb':
            with ctx.atomic():
                if op[2] == 'set':
                    gmpy2.set_context(gmpy2.context())
                for k, v in op[3].items():
                    setattr(gmpy2.get_context(), k, v)
            ctx.fault('hostile_context')
        elif op[1] == 'collect':
            ctx.collect()
        elif op[1] == 'burst':
            seams.RANDOM.burst = list(op[2])
            ctx.fault('extreme_random_answers')
        elif op[1] == 'work':
            name, res = busy.busy(hw, op[2])
            ctx.probe('work' + name)
            if res != 'ok':
                ctx.fault('operation_fails')
        else:
            raise HarnessError(op)

    ctx.clients(plan['clients'], do)
    ctx.nontrivial = n[0] >= 1 and (ctx.k.switches > 0 or bool(ctx.k.faults))


def cover(ctx, plan):
    import random
    kind = plan['kind']
    random.seed(plan['seed'])
    vals = [draw(ctx, kind) for _ in range(plan['n'])]
    if kind[0] == 'bit':
        size, small = 1, 2
    elif kind[0] == 'bv':
        size, small = kind[2], (1 << kind[2] if kind[2] <= 4 else None)
    else:
        f = Fmt(*kind[1:5])
        size, small = f.size, None
        exps = {(p >> f.mb) & ((1 << f.eb) - 1) for p in vals}
        if f.eb <= 4:
            # every exponent of normal numbers
            miss = [e for e in range(1, (1 << f.eb) - 1) if e not in exps]
            ctx.check(not miss, 'range-not-reached', f'biased exponents {miss} never drawn in {len(vals)} draws', what=kind)
        # infinities have no mantissa
        fin = [p for p in vals if f.decode(p)[0] != 'inf']
        if f.mb <= 4:
            ms = {p & ((1 << f.mb) - 1) for p in fin}
            ctx.check(len(ms) == 1 << f.mb, 'range-not-reached',
                      f'only {len(ms)} of {1 << f.mb} mantissas drawn in {len(fin)} draws', what=kind)
    one, zero = 0, 0
    for p in vals:
        one |= p
        zero |= ~p
    for b in range(size):
        ctx.check(one >> b & 1 and zero >> b & 1, 'stuck-bit',
                  f'bit {b} of {size} is always {one >> b & 1} in {len(vals)} draws', what=kind)
    if small:
        ctx.check(len(set(vals)) == small, 'range-not-reached',
                  f'only {len(set(vals))} of {small} values drawn in {len(vals)} draws', what=kind)
    ctx.probe('long_sequences')
    ctx.note('cover', kind, vals[-1])
    ctx.nontrivial = True
