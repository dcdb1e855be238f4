"""C09: writing bits of a bit-vector changes that value only."""
import copy
import random
import warnings

import pysmt.shortcuts as smt
import z3

from .. import busy, bvops, poke, solverfault
from ..solverfault import BACKEND
from ..typespec import HarnessError, HookError, Missing
from . import c01

ID = 'C09'
hw = None


def prepare():
    global hw
    import hwtypes
    hw = hwtypes
    warnings.simplefilter('ignore')
    solverfault.prepare()


# ------------------------------------------------------------- generation ----
NEW = ['int', 'int', 'list', 'const', 'default', 'bit', 'copy', 'ccopy', 'dcopy', 'conv', 'sym', 'random', 'user', 'mod']
POPS = ['bvnot', '~', 'neg', 'bvand', 'bvor', 'bvxor', '+', '-', '&', '|', '^', '<<', '>>', '*', 'copy']


def generate(r, tier):
    nc = r.choice([1, 1, 2, 2, 3])
    widths = r.sample([1, 2, 3, 4, 5, 8, 16, 33, 64], 2)
    vals = [0, -1, 1, r.getrandbits(64)]
    shared = []
    for i in range(r.randint(1, 4)):
        shared.append([f's{i}', r.choice(['py', 'py', 'smt', 'z3']), r.choice('BUS'), r.choice(widths), r.choice(vals),
                       r.random() < .3])
    clients = []
    for c in range(nc):
        fams = r.choice([['py'], ['py'], ['smt'], ['z3'], ['py', 'smt', 'z3']])
        slots = [f'c{c}h{i}' for i in range(6)]
        ops = []
        for s in slots[:3]:
            ops.append([f'{s}n', 'new', s, r.choice(fams), r.choice('BUS'), r.choice(widths), r.choice(vals), r.choice(NEW)])
        for j in range(r.randint(8, 30 if nc == 1 else 14)):
            oid = f'c{c}.{j}'
            x = r.random()
            names = slots * 3 + [s[0] for s in shared]
            h = r.choice(slots)
            if x < .12:
                ops.append([oid, 'new', h, r.choice(fams), r.choice('BUS'), r.choice(widths), r.choice(vals), r.choice(NEW)])
            elif x < .50:
                o = [oid, 'op', h, bvops.gen_op(r, r.choice(fams)), r.choice(names), r.choice(names), r.choice(names),
                     {'write': r.choice([None, None, 'r', 'r', 'a', 'b', 'r2'])}]
                y = r.random()
                if y < .1:
                    o[7]['foreign'] = r.choice(['raise', 'write', 'yield', 'gc', 'type'])
                elif y < .2:
                    o[7]['solver'] = r.randrange(10)
                ops.append(o)
            elif x < .58:
                ops.append([oid, 'again', r.choice([None, 'r', 'r', 'a'])])
            elif x < .76:
                ops.append([oid, 'bit', r.choice(slots), r.randrange(64), r.choice([0, 1, 'b', False, True])])
            elif x < .86:
                ops.append([oid, 'aug', r.choice(slots), r.choice(['+', '-', '&', '|', '^', '<<', '>>', '*']),
                            r.choice(names + [None] * 4), r.randrange(8)])
            elif x < .88:
                ops.append([oid, 'ask', r.choice(slots), r.choice(slots), r.randrange(1 << 30)])
            elif x < .91:
                ops.append([oid, 'alias', h, r.choice(slots)])
            elif x < .94:
                ops.append([oid, 'list', r.choice(slots), r.randrange(64)])
            elif x < .955:
                ops.append([oid, 'ask', r.choice(slots), r.choice(slots), r.randrange(1 << 30)])
            elif x < .96:
                ops.append([oid, 'collect'])
            elif x < .97:
                ops.append([oid, 'drop', h])
            else:
                ops.append([oid, 'work', r.randrange(3000)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'shared': shared, 'clients': clients}


# ------------------------------------------------------------------ model ----
class Cell:
    """One object and what it must contain."""
    __slots__ = ('obj', 'fam', 'kind', 'w', 'v', 'ro')

    def __init__(self, obj, fam, kind, w, v, ro=False):
        self.obj, self.fam, self.kind, self.w, self.v, self.ro = obj, fam, kind, w, v, ro


class Foreign:
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __int__(self):
        self.f()
        return self.n


def run(ctx, plan):
    BACKEND.ctx = ctx
    F = {n: bvops.Fam(hw, n) for n in ('py', 'smt', 'z3')}
    Y = {k: type('Y' + k, (F['py'].T[k],), {'__module__': __name__}) for k in 'BUS'}
    Mod = hw.modifiers.make_modifier('Mo9')
    sym = {'smt': {}, 'z3': []}         # values of the symbols
    cells, shared, old, lists, last = {}, {}, {}, {}, {}
    n_writes = [0]

    def read(c):
        x = c.obj
        if c.fam == 'py':
            if c.kind == 'bit':
                return int(bool(x))
            v = x.as_uint()
            bits = [int(b) for b in x.bits()]
            flags = [int(b) for b in x.as_bool_list()]
            if c.kind != 'P' and (bits != flags or bits != [v >> i & 1 for i in range(len(x))]):
                return f'{v} with the bits {bits} and {flags}'
            return v
        if c.fam == 'smt':
            t = smt.simplify(x.value.substitute(sym['smt']))
            return int(t.constant_value()) if t.is_constant() else str(t)
        t = z3.simplify(z3.substitute(x.value, *sym['z3'])) if sym['z3'] else z3.simplify(x.value)
        if c.kind == 'bit':
            return 1 if z3.is_true(t) else 0 if z3.is_false(t) else str(t)
        return t.as_long() if z3.is_bv_value(t) else str(t)

    def cell_of(x, fam, ro=False):
        """A cell for a value the library returned: what it holds now is its contents."""
        if isinstance(x, hw.AbstractBit):
            c = Cell(x, fam, 'bit', 0, None, ro)
        else:
            T = F[fam].T
            kind = 'P' if type(x).__name__.startswith('Poly') else next(
                (k for k in 'SU' if isinstance(x, T[k])), 'B')
            if kind in 'BUS' and type(x) is not T[kind][x.size]:
                kind = kind.lower()         # a user's or modified type
            c = Cell(x, fam, kind, x.size, None, ro)
        c.v = read(c)
        return c

    def register(tid, h, c):
        o = cells.get(h)
        if o is not None:
            keep = old.setdefault(tid, [])
            keep.append(o)
            del keep[:-4]
        cells[h] = c

    def add_symbol(x, fam, v, w):
        if fam == 'smt':
            sym['smt'][x.value] = smt.BV(v, w)
        else:
            sym['z3'].append((x.value, z3.BitVecVal(v, w)))

    def make(fam, kind, w, val, how, tid):
        T = F[fam].T[kind][w]
        v = val % (1 << w)
        if how == 'list':
            bits = [v >> i & 1 for i in range(w)]
            if fam != 'py':
                bits = [bool(b) for b in bits]
                return Cell(T(bits), fam, kind, w, None), bits
            return Cell(T(bits), fam, kind, w, v), bits
        if how == 'const':
            x = T(0).make_constant(v)
        elif how == 'default' and fam == 'py':
            x, v = T(), 0
        elif how == 'bit':
            x, v = T(F[fam].Bit(v & 1)), v & 1
        elif how == 'copy':
            x = T(T(v))
        elif how == 'ccopy':
            x = copy.copy(T(v))
        elif how == 'sym' and fam != 'py':
            x = T()
            add_symbol(x, fam, v, w)
        elif how == 'user' and fam == 'py':
            x = Y[kind][w](v)
        elif how == 'mod' and fam == 'py':
            x = Mod(T)(v)
        else:
            x = T(v)
        return Cell(x, fam, kind if type(x) is T else kind.lower(), w, v), None

    for label, fam, kind, w, val, symbolic in plan['shared']:
        c, _ = make(fam, kind, w, val, 'sym' if symbolic else 'int', -1)
        c.v = read(c)
        c.ro = True
        shared[label] = c

    def get(h):
        c = cells.get(h) or shared.get(h)
        if c is None:
            raise Missing(h)
        return c

    def verify(tid, op, why):
        with ctx.atomic():
            armed, BACKEND.armed = BACKEND.armed, None
            todo = [(h, c) for h, c in cells.items() if h.startswith(f'c{tid}h')]
            todo += list(shared.items()) + [('an old value', c) for c in old.get(tid, ())]
            for h, c in todo:
                got = read(c)
                ctx.check(got == c.v, 'changed-other' if not why[1] or c is not why[1] else 'wrong-write',
                          f'after {why[0]}: {h} ({type(c.obj)}) holds {got}, not {c.v}', op=op)
            for bits, want in lists.get(tid, ()):
                ctx.check(bits == want, 'changed-other', f'after {why[0]} the list given to or got from a bit-vector '
                          f'became {bits}, not {want}', op=op)
            BACKEND.armed = armed

    def write(tid, c, i, b):
        """Write one bit of c (not of a shared value)."""
        if c.ro or c.kind == 'bit' or not c.w:
            return False
        i %= c.w
        bit = F[c.fam].Bit(i & 1) if b == 'b' else b
        n = i & 1 if b == 'b' else int(b)
        c.obj[i - c.w if b is True else i] = bit
        c.v = c.v & ~(1 << i) | n << i
        n_writes[0] += 1
        ctx.probe('bit_writes')
        return True

    def do(tid, op):
        try:
            _do(tid, op)
        except Missing:
            ctx.note('missing', op[0])

    def _do(tid, op):
        kind = op[1]
        why = [kind, None]
        if kind == 'new':
            _, _, h, fam, k, w, val, how = op
            if how in ('dcopy', 'conv', 'random'):
                if how == 'random':
                    if fam != 'py':
                        return
                    c = cell_of(F['py'].T[k].random(w), 'py')
                elif how == 'conv':
                    src = get(h) if h in cells else make(fam, k, w, val, 'int', tid)[0]
                    if src.kind == 'bit':
                        return
                    x = F[src.fam].T[k][src.w](src.obj)
                    c = cell_of(x, src.fam)
                else:
                    if h not in cells:
                        return
                    src = get(h)
                    if src.fam == 'smt':
                        return
                    c = cell_of(copy.deepcopy(src.obj), src.fam)
            else:
                c, bits = make(fam, k, w, val, how, tid)
                if bits is not None:
                    lists.setdefault(tid, []).append((bits, list(bits)))
                    with ctx.atomic():
                        c.v = read(c)
            register(tid, h, c)
        elif kind in ('op', 'again'):
            if kind == 'op':
                last[tid] = op
                wr = op[7]['write']
            else:
                if tid not in last:
                    return
                wr, op = op[2], last[tid]
            run_op(tid, op, wr, kind == 'again')
            return
        elif kind == 'bit':
            c = get(op[2])
            if not write(tid, c, op[3], op[4]):
                return
            why = [f'a bit write to {op[2]}', c]
        elif kind == 'aug':
            c = get(op[2])
            b = get(op[4]) if op[4] is not None else None
            if c.kind == 'bit':
                if op[3] not in '&|^' or b is None or b.kind != 'bit' or b.fam != c.fam:
                    return
                y = b.obj
            elif b is None or b.fam != c.fam or b.w != c.w or b.kind in ('bit',) or b.v > 300 or b.kind in 'Pbus' != c.kind:
                y = op[5] % (1 << c.w)
            else:
                y = b.obj
            if c.fam == 'z3' and op[3] == '*' and c.w > 16:
                return
            x = c.obj
            x = bvops.IOPER[op[3]](x, y)
            with ctx.atomic():
                n = cell_of(x, c.fam)
            # the name is bound to the result, the object stays as it is
            register(tid, op[2], n)
            ctx.probe('augmented')
            why = [f'{op[3]}= on {op[2]}', None]
        elif kind == 'alias':
            register(tid, op[2], get(op[3]))
            return
        elif kind == 'list':
            c = get(op[2])
            ls = lists.setdefault(tid, [])
            if op[3] % 2 and ls:
                bits, want = ls[op[3] % len(ls)]
                if bits:
                    i = op[3] % len(bits)
                    bits[i] = want[i] = type(bits[i])(1 - bits[i])
                why = ['a write to a list', None]
            elif c.fam == 'py' and c.kind != 'bit':
                bits = c.obj.bits() if op[3] % 4 else c.obj.as_bool_list()
                ls.append((bits, list(bits)))
            del ls[:-4]
        elif kind == 'ask':
            # any question the public surface offers; writes to the answers
            a, b = get(op[2]), get(op[3])
            r = random.Random(op[4])
            with ctx.atomic():
                if b.fam != a.fam or not isinstance(read(b), int) or b.v > 300:
                    b = a
                args = [0, 1, 3, True, F[a.fam].Bit(1)]
                if isinstance(read(a), int) and a.v <= 300:
                    args.append(a.obj)
                if b is not a:
                    args += [b.obj] * 3
            every = poke.names(type(a.obj))
            if a.fam == 'z3' and a.w > 16:
                every = [n for n in every if not any(x in n for x in ('mul', 'div', 'rem', 'mod'))]
            for i in range(4):
                name = r.choice(every)
                got = poke.ask(a.obj, name, poke.arguments(r, args))
                verify(tid, op, [f'asking for {name}', None])
                ctx.probe('asked')
                for x in got if isinstance(got, (tuple, list)) and len(got) < 4 else [got]:
                    if isinstance(x, hw.AbstractBitVector) and type(x).is_sized and 0 < x.size < 300:
                        with ctx.atomic():
                            c = cell_of(x, a.fam)
                        if not isinstance(c.v, int):
                            continue
                        register(tid, f'c{tid}h4', c)
                        if write(tid, c, r.randrange(64), r.randrange(2)):
                            verify(tid, op, [f'a write to the answer of {name}', c])
                if isinstance(got, list) and got and all(type(x) is bool or type(x) is int for x in got):
                    got[0] = type(got[0])(1 - got[0])
                    verify(tid, op, [f'a write to the answer of {name}', None])
            return
        elif kind == 'collect':
            ctx.collect()
        elif kind == 'drop':
            cells.pop(op[2], None)
            return
        elif kind == 'work':
            name, res = busy.busy(hw, op[2])
            if res != 'ok':
                ctx.fault('operation_fails')
        else:
            raise HarnessError(op)
        verify(tid, op, why)

    def run_op(tid, op, wr, again):
        _, _, h, o, ha, hb, hc, opt = op
        a, b = get(ha), get(hb)
        if a.kind == 'bit':
            return
        fam = a.fam
        if not bvops.offered(o[0], fam):
            return
        if b.fam != fam or b.kind == 'bit' or b.w != a.w and o[0] != 'concat':
            b = a
        try:
            c = get(hc)
        except Missing:
            c = None
        cb = c.obj if c is not None and c.kind == 'bit' and c.fam == fam else F[fam].Bit(o[-1] % 2 if len(o) > 1 else 0)
        plain = a.kind in 'BUS' and b.kind in 'BUS'
        ma, mb = (a.kind.upper(), a.w, a.v), (b.kind.upper(), b.w, b.v)
        if not plain and (o[0] not in POPS or fam == 'py' and b.v > 300):
            return
        if fam != 'py' and o[0] in ('bvite', 'ite', 'ites', 'polyite') and a.kind != b.kind:
            return
        division = o[0] in ('bvsdiv', 'bvsrem', 'floordiv', 'mod')
        if plain and not bvops.fits(o, fam, ma, mb) and not (fam == 'py' and division):
            return
        if fam == 'z3' and o[0] in ('*', 'bvmul', 'bvudiv', 'bvurem', 'bvsdiv', 'bvsrem', 'mod', 'floordiv') and a.w > 16:
            return
        if o[0] in ('bvsdiv', 'bvsrem', 'floordiv', 'mod') and fam == 'py' and not b.v:
            ctx.probe('division_by_zero')
        bo = b.obj
        state = {'fired': False}
        if opt.get('foreign') and fam == 'py' and o[0] in ('+', '-', '&', '|', '^', 'bvadd', 'bvand', 'bvurem', 'bvcomp', '=='):
            how = opt['foreign']

            def cb_():
                ctx.yield_point('int')
                state['fired'] = True
                ctx.fault('operand_' + how)
                if how == 'raise':
                    raise HookError('operand')
                if how == 'type':
                    raise TypeError('operand')
                if how == 'gc':
                    ctx.k.collect()
                if how == 'write':
                    write(tid, a, len(op[0]), 1)
                    write(tid, b, 0, 0)
            bo = Foreign(b.v, cb_)
        if opt.get('solver') is not None and fam != 'py':
            BACKEND.armed = [tid, opt['solver']]
        try:
            res = bvops.perform(o, F[fam], a.obj, bo, cb, (ma[0] if plain else 'B',) + ma[1:])
        except (HookError, MemoryError, TypeError) as e:
            if isinstance(e, TypeError) and not state['fired']:
                raise
            verify(tid, op, [f'{o[0]} which failed', None])
            return
        finally:
            BACKEND.disarm(tid)
        res = res if isinstance(res, list) else [res]
        with ctx.atomic():
            out = [cell_of(x, fam) for x in res if not isinstance(x, bool)]
        if not out:
            return          # == with an operand that cannot be converted
        register(tid, h, out[0])
        if len(out) > 1:
            register(tid, f'c{tid}h5', out[1])
        ctx.probe('operations' if not again else 'repeated_operations')
        verify(tid, op, [o[0], None])
        target = {'r': out[0], 'r2': out[-1], 'a': a, 'b': b}.get(wr)
        if target is not None:
            i = len(op[0]) + (target.v or 0) % 7
            flip = 1 - (target.v >> (i % target.w) & 1) if target.w else 0
            if write(tid, target, i, flip):
                verify(tid, op, [f'{o[0]} and a write to its {"result" if wr[0] == "r" else "operand"}', target])

    ctx.clients(plan['clients'], do)
    ctx.nontrivial = n_writes[0] >= 1 and (ctx.k.switches > 0 or bool(ctx.k.faults) or n_writes[0] >= 3)
