"""C14: concurrent computations give their sequential results."""
import operator
import warnings

import pysmt.shortcuts as smt
import z3

from .. import busy, bvops, solverfault
from ..solverfault import BACKEND
from ..typespec import HarnessError, HookError
from . import c01

ID = 'C14'
hw = None


def prepare():
    global hw
    import hwtypes
    import hwtypes.smt_utils
    hw = hwtypes
    warnings.simplefilter('ignore')
    solverfault.prepare()


# ------------------------------------------------------------- generation ----
POLY_OPS = ['==', '!=', '<', '<=', '>', '>=', '>>', '<<', '+', '-', '&', '|', '^', '~', 'neg', 'bvult', 'bvslt', 'bvadd',
            'bvashr', 'bvlshr', 'lit+', 'bit']
MISC = ['setitem', 'strings', 'implicit', 'sequence', 'overflow', 'misfit', 'index', 'instruction', 'modifiers', 'wrap',
        'visit', 'tuple-of', 'smtvals', 'random', 'iterate', 'casts', 'truncate', 'bitops', 'shared', 'shared']
DIV = ('*', 'bvmul', 'bvudiv', 'bvurem', 'bvsdiv', 'bvsrem', 'mod', 'floordiv')


def gen_val(r, w):
    return r.choice([0, 1, -1, r.getrandbits(w), r.getrandbits(w), 1 << (w - 1)]) % (1 << w)


def generate(r, tier):
    nc = r.choice([1, 2, 2, 2, 3, 3, 4])
    widths = r.sample([1, 2, 3, 4, 5, 7, 8, 16, 33, 64], r.randint(1, 3))
    fams = r.choice([['py'], ['py'], ['smt'], ['z3'], ['py', 'smt'], ['py', 'smt', 'z3']])
    fault = r.random() < .6
    ops_pool = r.random() < .5 and [bvops.gen_op(r, f) for f in fams for _ in range(3)]
    # in some runs all clients do nearly the same
    fixed = {} if r.random() < .45 else None
    if fixed is not None:
        nc = max(nc, 2)
        widths, fams = widths[:1], fams[:1]
        kinds = [r.random() for _ in range(r.choice([1, 1, 2]))]

    def ch(what, f):
        if fixed is None or r.random() < .15:
            return f()
        if what not in fixed:
            fixed[what] = f()
        return fixed[what]
    shared = []
    if r.random() < .5:
        shared = [[r.choice(fams), r.choice('BUS'), w, gen_val(r, w), r.random() < .3] for w in r.choices(widths[:2], k=4)]
    clients = []
    for c in range(nc):
        ops = []
        n = r.randint(5, 24 if nc == 1 else 14 if nc == 2 else 8)
        fam = r.choice(fams)
        for j in range(n):
            oid = f'c{c}.{j}'
            if r.random() < .2:
                fam = r.choice(fams)
            w = r.choice(widths)
            vals = [gen_val(r, w) for _ in range(3)]
            opt = {}
            if fault:
                y = r.random()
                if y < .08 and fam != 'py':
                    opt['solver'] = r.randrange(12)
                elif y < .16 and fam == 'py':
                    opt['foreign'] = r.choice(['raise', 'gc', 'yield', 'yield', 'type'])
            x = r.random() if fixed is None or r.random() < .15 else r.choice(kinds)
            slots = [f'{"g" if shared and r.random() < .35 else "h"}{r.randrange(4)}' for _ in range(3)] + [f'h{r.randrange(4)}']
            sym = r.random() < .4
            if x < .45:
                o = ch('op', lambda: r.choice(ops_pool) if ops_pool and r.random() < .7 else bvops.gen_op(r, fam))
                ops.append([oid, 'op', fam, ch('kind', lambda: r.choice('BUS')), w, vals, sym, o, slots, opt])
            elif x < .60:
                ks = ch('kinds', lambda: r.sample('BUS', 2))
                ops.append([oid, 'poly', fam if fam != 'z3' else 'py', ks, w, vals, r.randrange(2), sym,
                            [[ch('poly', lambda: r.choice(POLY_OPS)), r.randrange(64), r.randrange(64)]
                             for _ in range(r.randint(1, 3))], opt])
            elif x < .66:
                ops.append([oid, 'ite', fam if fam != 'z3' else 'py', r.choice('BUS'), w, vals, r.randrange(2), sym,
                            ch('ite', lambda: r.choice(['tuple', 'nested', 'protocol', 'bv-select', 'bits', 'misfit', 'polybit'])), opt])
            elif x < .81:
                ops.append([oid, 'adt', ch('adt', lambda: r.choice(['tuple', 'prod', 'aprod', 'sum', 'union', 'class', 'rebind'])), w,
                            ch('kind', lambda: r.choice('BUS')), vals, opt])
            elif x < .88:
                ops.append([oid, 'misc', ch('misc', lambda: r.choice(MISC)), fam if fam != 'z3' else 'py', ch('kind', lambda: r.choice('BUS')), w,
                            vals])
            elif x < .91:
                ops.append([oid, 'enum', [r.randint(1, 3), r.randint(1, 3)], r.choice(['tuple', 'prod', 'sum', 'union', 'enum'])])
            elif x < .93:
                ops.append([oid, 'infer', r.choice(['int', 'list', 'bv']), w, vals])
            elif x < .95:
                ops.append([oid, 'smtint' if 'smt' in fams else 'infer', 'int', w, vals])
            elif x < .96:
                ops.append([oid, 'formula' if 'smt' in fams else 'infer', 'list', w, vals])
            elif x < .98:
                ops.append([oid, 'work', r.randrange(3000)])
            else:
                ops.append([oid, 'collect'])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'clients': clients, 'shared': shared}


class Foreign:
    """An operand of a foreign integer type."""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __int__(self):
        self.f()
        return self.n


def run(ctx, plan):
    BACKEND.ctx = ctx
    F = {n: bvops.Fam(hw, n) for n in ('py', 'smt', 'z3')}
    sym = {'smt': {}, 'z3': []}
    slots = {}          # (tid, slot) -> (family, object, model)
    n_ok = [0]

    def read(x, fam):
        if fam == 'py':
            return int(bool(x)) if isinstance(x, hw.AbstractBit) else x.as_uint()
        if fam == 'smt':
            t = smt.simplify(x.value.substitute(dict(sym['smt'])))
            return int(t.constant_value()) if t.is_constant() else str(t)
        t = z3.simplify(z3.substitute(x.value, *sym['z3'])) if sym['z3'] else z3.simplify(x.value)
        if isinstance(x, hw.AbstractBit):
            return 1 if z3.is_true(t) else 0 if z3.is_false(t) else str(t)
        return t.as_long() if z3.is_bv_value(t) else str(t)

    def make(fam, m, symbolic):
        """A value of the model value m: a constant or a symbol standing for it."""
        kind, w, v = m
        if not symbolic or fam == 'py':
            return F[fam].make(m)
        x = F[fam].Bit() if kind == 'bit' else F[fam].T[kind][w]()
        if fam == 'smt':
            sym['smt'][x.value] = smt.Bool(bool(v)) if kind == 'bit' else smt.BV(v, w)
        else:
            sym['z3'].append((x.value, z3.BoolVal(bool(v)) if kind == 'bit' else z3.BitVecVal(v, w)))
        return x

    def expect(x, fam, m, what, op):
        """x must be the model value m."""
        with ctx.atomic():
            armed, BACKEND.armed = BACKEND.armed, None
            if m[0] == 'poly':
                ok = isinstance(x, hw.AbstractBitVector) and x.size == m[1]
            else:
                ok = F[fam].is_type(x, m)
            ctx.check(ok, 'wrong-type', f'{what} is a {type(x)}, not {m}', op=op)
            got = read(x, fam)
            ctx.check(got == m[2], 'wrong-value', f'{what} is {got}, not {m[2]}', op=op)
            BACKEND.armed = armed
        n_ok[0] += 1

    def foreign(tid, opt, v):
        """v, or a foreign integer whose conversion does something."""
        how = opt['foreign']
        state = {'fired': False}

        def f():
            ctx.yield_point('int')
            state['fired'] = True
            ctx.fault('operand_' + how)
            if how == 'raise':
                raise HookError('operand')
            if how == 'type':
                raise TypeError('operand')
            if how == 'gc':
                ctx.k.collect()
        return Foreign(v, f), state

    def guarded(tid, op, opt, fn, state=None):
        """Run fn; (True, result) or (False, None) when the plan made it fail."""
        if 'solver' in opt:
            BACKEND.armed = [tid, opt['solver']]
        try:
            return True, fn()
        except MemoryError:
            if 'solver' not in opt:
                raise
            ctx.probe('operation_failed')
            return False, None
        except (HookError, TypeError):
            if state is None or not state['fired']:
                raise
            ctx.probe('operation_failed')
            return False, None
        finally:
            BACKEND.disarm(tid)

    # ---- operations ---------------------------------------------------------
    def do_op(tid, op):
        _, _, fam, kind, w, vals, symbolic, o, sl, opt = op
        if not bvops.offered(o[0], fam):
            o = ['bvadd']
        # operands: earlier results when they fit
        def pick(i, kind, w):
            h = slots.get((None if sl[i][0] == 'g' else tid, sl[i]))
            if h is not None and h[0] == fam and h[2][0] in 'BUS' and h[2][1] == w:
                return h[1], h[2]
            m = (kind, w, vals[i] % (1 << w))
            return make(fam, m, symbolic), m
        h = slots.get((None if sl[0][0] == 'g' else tid, sl[0]))
        if h is not None and h[0] == fam and h[2][0] in 'BUS' and h[2][1] <= 64:
            a, ma = h[1], h[2]
        else:
            ma = (kind, w, vals[0])
            a = make(fam, ma, symbolic)
        b, mb = pick(1, ma[0], ma[1])
        if mb[1] != ma[1] or o[0] in bvops.OPER and mb[0] != ma[0]:
            # (Python prefers the reflected operator of a subclass: its kind would decide)
            mb = (ma[0], ma[1], vals[1] % (1 << ma[1]))
            b = make(fam, mb, symbolic)
        if o[0] in ('bvite', 'ite', 'ites', 'polyite')[:3 if fam == 'py' else 4] and ma[0] != mb[0]:
            b, mb = a, ma
        if fam == 'z3' and o[0] in DIV and ma[1] > 16:
            return
        if not bvops.fits(o, fam, ma, mb):
            return
        mc = ('bit', 0, vals[2] & 1)
        c = make(fam, mc, symbolic)
        bo, state = b, None
        if 'foreign' in opt and o[0] in ('+', '-', '&', '|', '^', 'bvadd', 'bvand', 'bvurem', 'bvult', '<', '>>', 'bvsub'):
            bo, state = foreign(tid, opt, mb[2])
        ok, res = guarded(tid, op, opt, lambda: bvops.perform(o, F[fam], a, bo, c, ma), state)
        if not ok:
            return
        want = bvops.result_model(o, fam, ma, mb, mc)
        if o[0] == 'polyite':
            expect(res[0], fam, want[0], f'{o} of {ma}, {mb}, {mc}', op)
            expect(res[1], fam, want[1], f'{o} of {ma}, {mb}, {mc}', op)
            return
        res, want = (res, want) if isinstance(res, list) else ([res], [want])
        for x, m in zip(res, want):
            if fam != 'z3' or m[0] == 'bit' or o[0] not in ('ite', 'bvite'):
                expect(x, fam, m, f'{o} of {ma}, {mb}, {mc}', op)
        if want[0][0] in 'BUS' and F[fam].is_type(res[0], want[0]):
            slots[tid, sl[3]] = (fam, res[0], want[0])
        ctx.probe('operations')

    def do_poly(tid, op):
        _, _, fam, ks, w, vals, sel, symbolic, todo, opt = op
        m = [(ks[i], w, vals[i]) for i in range(2)]
        a, b = (make(fam, x, symbolic) for x in m)
        s = make(fam, ('bit', 0, sel), symbolic)
        ok, x = guarded(tid, op, opt if 'solver' in opt else {}, lambda: s.ite(a, b))
        if not ok:
            return
        cur = m[0] if sel else m[1]
        expect(x, fam, ('poly', w, cur[2]), f'the choice of {m} by {sel}', op)
        mb = (ks[0], w, vals[2])
        y = make(fam, mb, symbolic)
        for o in todo:
            if not bvops.fits(o, fam, cur, mb):
                continue
            ctx.yield_point('between')
            yo, state = y, None
            if 'foreign' in opt and o[0] in ('+', '-', '&', '<', '>>'):
                yo, state = foreign(tid, opt, mb[2])
            ok, z = guarded(tid, op, {}, lambda: bvops.perform(o, F[fam], x, yo, None, cur), state)
            if not ok:
                continue
            want = bvops.result_model(o, fam, cur, mb, None)
            if want[0] == 'bit':
                expect(z, fam, want, f'{o} of the choice of {m} by {sel} and {mb}', op)
            else:
                expect(z, fam, ('poly', *want[1:]), f'{o} of the choice of {m} by {sel} and {mb}', op)
                x, cur = z, (cur[0], want[1], want[2])
        ctx.probe('choices')

    class WrappedMeta(type):
        def _bitvector_t_(cls):
            return cls.T

    class Wrapped(metaclass=WrappedMeta):
        """A user's class that is chosen through its bit-vector."""

        def __init__(self, bv):
            self.bv = bv

        def _to_bitvector_(self):
            return self.bv

        @classmethod
        def _from_bitvector_(cls, bv):
            return cls(bv)

    def do_ite(tid, op):
        _, _, fam, kind, w, vals, sel, symbolic, how, opt = op
        ms = [(kind, w, v) for v in vals]
        xs = [make(fam, m, symbolic) for m in ms]
        s = make(fam, ('bit', 0, sel), symbolic)
        bits = [('bit', 0, v & 1) for v in vals]
        if how == 'misfit':
            other = F[fam].T[kind][w + 1](0)
            for t, f in ((xs[0], other), ((xs[0], xs[1]), (xs[0],)), (xs[0], (xs[1],))):
                try:
                    s.ite(t, f)
                except TypeError:
                    ctx.fault('request_rejected')
                else:
                    ctx.violation('accepted', f'a choice between {t!r} and {f!r} was accepted', op=op)
            return
        if how == 'tuple':
            fn = lambda: s.ite((xs[0], xs[1]), (xs[1], xs[2]))
            want = [ms[0], ms[1]] if sel else [ms[1], ms[2]]
        elif how == 'nested':
            bs = [make(fam, b, symbolic) for b in bits]
            fn = lambda: (lambda p: (p[0], p[1][0], p[1][1]))(s.ite((bs[0], (xs[0], bs[1])), (bs[2], (xs[2], bs[0]))))
            want = [bits[0], ms[0], bits[1]] if sel else [bits[2], ms[2], bits[0]]
        elif how == 'protocol':
            W = WrappedMeta('W14', (Wrapped,), {'T': F[fam].T[kind][w]})
            fn = lambda: [s.ite(W(xs[0]), W(xs[1])).bv]
            want = [ms[0] if sel else ms[1]]
        elif how == 'polybit':
            X, Y = (type(n, (F[fam].Bit,), {'__module__': __name__}) for n in ('X14', 'Y14'))
            x, y = X(bits[0][2]), Y(bits[1][2])
            b = make(fam, bits[2], symbolic)

            def fn():
                z = s.ite(x, y)
                return [z, ~z, z & b, z | b, z ^ b, z == b, z.ite(xs[0], xs[1])]
            z, c = bits[0 if sel else 1][2], bits[2][2]
            want = [('bit', 0, v) for v in (z, 1 - z, z & c, z | c, z ^ c, int(z == c))] + [ms[0] if z else ms[1]]
        elif how == 'bv-select':
            fn = lambda: [xs[0].ite(xs[1], xs[2])]
            want = [ms[1] if vals[0] else ms[2]]
        else:
            bs = [make(fam, b, symbolic) for b in bits]
            fn = lambda: [s.ite(bs[0], bs[1]), bs[0] & bs[1], bs[0] | bs[1], bs[0] ^ bs[1], ~bs[0], bs[0] == bs[1]]
            p, q = bits[0][2], bits[1][2]
            want = [('bit', 0, v) for v in (p if sel else q, p & q, p | q, p ^ q, 1 - p, int(p == q))]
        ok, res = guarded(tid, op, opt if 'solver' in opt else {}, fn)
        if ok:
            for x, m in zip(res, want, strict=True):
                expect(x, fam, m, f'the {how} choice of {ms} by {sel}', op)
            ctx.probe('choices')

    def do_adt(tid, op):
        _, _, how, w, kind, vals, opt = op
        T = F['py'].T[kind]
        A, B, C = T[w], T[w + 1], hw.Bit
        a, a2, b, c = A(vals[0]), A(vals[1]), B(vals[2]), C(vals[0] & 1)

        def same(cond, what):
            ctx.check(bool(cond), 'adt', f'{how} with {[w, kind, vals]}: {what}', op=op)
        eq = vals[0] == vals[1]
        if how in ('tuple', 'aprod', 'prod', 'class'):
            if how == 'tuple':
                P = hw.Tuple[A, B, C]
                mk, names = P, [0, 1, 2]
            elif how == 'aprod':
                P = hw.adt.AnonymousProduct[{'x': A, 'y': B, 'z': C}]
            elif how == 'prod':
                P = hw.Product.from_fields('P14', {'x': A, 'y': B, 'z': C})
            else:
                class P(hw.Product):
                    x = A
                    y = B
                    z = C

                    def total(self):
                        return self.x.as_uint() + self.y.as_uint()
            if how != 'tuple':
                names = ['x', 'y', 'z']
                mk = (lambda *v: P(**dict(zip(names, v)))) if vals[2] & 1 else P
            p, q = mk(a, b, c), mk(a2, b, c)
            same(type(p) is P and list(P.fields) == [A, B, C] and list(P.field_dict) == names, 'type')
            same(p[0] is a and p[1] is b and p[2] is c, 'fields')
            if how != 'tuple':
                same(p.x is a and p.y is b and p.z is c, 'fields by name')
            same(bool(p == q) is eq and bool(p != q) is not eq, f'equality is {p == q}')
            same(dict(p.value_dict) == dict(zip(names, (a, b, c))), 'value_dict')
            same(P.from_values(p.value_dict) == p, 'from_values')
            p[0] = a2
            same(p == q and hash(p) == hash(q), 'equality after a write')
            if how == 'class':
                same(p.total() == vals[1] + vals[2], 'method')
            for bad in ((a, b), (a, a2, c)):
                try:
                    mk2 = P(*bad)
                except (TypeError, ValueError):
                    ctx.fault('request_rejected')
                else:
                    same(False, f'{mk2} was accepted')
        elif how == 'sum':
            S = hw.Sum[A, B, C]
            for v, V in ((a, A), (b, B), (c, C)):
                s = S(v)
                for U in (A, B, C):
                    m = s[U]
                    same(m.match is (U is V), f'{s}[{U}].match is {m.match}')
                    if U is V:
                        same(m.value is v, 'value')
                    else:
                        try:
                            m.value
                        except TypeError:
                            pass
                        else:
                            same(False, 'the value of an unmatched variant')
                same([k for k, x in s.value_dict.items() if x is not None] == [V], 'value_dict')
                same(S.from_values(s.value_dict) == s, 'from_values')
            same(bool(S(a) == S(a2)) is eq, 'equality')
        elif how == 'union':
            U = hw.TaggedUnion.from_fields('U14', {'x': A, 'y': A, 'z': C})
            for n, v in (('x', a), ('y', a), ('z', c)):
                u = U(**{n: v})
                for k in 'xyz':
                    m = getattr(u, k)
                    same(m.match is (k == n), f'{k} matches {u}')
                    if k == n:
                        same(m.value is v, 'value')
                same(U.from_values(u.value_dict) == u, 'from_values')
            same(not (U(x=a) == U(y=a)) and bool(U(x=a) == U(x=a2)) is eq, 'equality')
            u = U(z=c)
            u.x = a2
            same(u == U(x=a2) and not u.z.match, 'a write')
        else:
            S = F['smt'].T[kind][w]
            P = hw.Product.from_fields('P14', {'x': A, 'y': hw.Tuple[B, A]})
            Q = P.rebind(A, S)
            same(list(Q.fields) == [S, hw.Tuple[B, S]] and list(Q.field_dict) == ['x', 'y'], f'rebinding gives {Q.fields}')
        ctx.probe('algebraic')
        n_ok[0] += 1

    def do_enum(tid, op):
        _, _, (n, m), how = op
        E = hw.Enum.from_fields('E14', {f'e{i}': i for i in range(n)})
        G = hw.Enum.from_fields('G14', {f'g{i}': i + 5 for i in range(m)})
        es, gs = [f'e{i}' for i in range(n)], [f'g{i}' for i in range(m)]

        def name(v):
            return v.name
        if how == 'enum':
            got, want = sorted(map(name, E.enumerate())), es
        elif how in ('tuple', 'prod'):
            T = hw.Tuple[E, G] if how == 'tuple' else hw.Product.from_fields('T14', {'a': E, 'b': G})
            got = sorted((name(t[0]), name(t[1])) for t in T.enumerate())
            want = sorted((e, g) for e in es for g in gs)
        elif how == 'sum':
            got = sorted(name(s[E].value if s[E].match else s[G].value) for s in hw.Sum[E, G].enumerate())
            want = sorted(es + gs)
        else:
            T = hw.TaggedUnion.from_fields('T14', {'a': E, 'b': G, 'c': E})
            got = sorted((k, name(v)) for u in T.enumerate() for k, v in u.value_dict.items() if v is not None)
            want = sorted([('a', e) for e in es] + [('b', g) for g in gs] + [('c', e) for e in es])
        ctx.check(got == want, 'enumeration', f'enumerating {how} of {es} and {gs} gives {got}', op=op)
        ctx.check([getattr(E, e).name for e in es] == es and all(E(getattr(E, e)) is getattr(E, e) for e in es),
                  'enumeration', 'members', op=op)
        n_ok[0] += 1
        ctx.probe('enumerations')

    def do_infer(tid, op):
        how, w, vals = op[2:]
        v = vals[0]
        if how == 'int':
            x, n = hw.BitVector(v), max(v.bit_length(), 1)
        elif how == 'list':
            x, n = hw.BitVector([v >> i & 1 for i in range(w)]), w
        else:
            x, n = hw.UIntVector(hw.BitVector[w](v)), w
        expect(x, 'py', ('U' if how == 'bv' else 'B', n, v), f'a vector of {v} ({how})', op)

    def do_int(tid, op):
        w, vals = op[3:]
        v, u = (x - (1 << (w - 1)) for x in vals[:2])
        a, b = hw.SMTInt(v), hw.SMTInt(u)
        s = hw.SMTInt()
        with ctx.atomic():
            sub = {s.value: smt.Int(u)}
        for name, f in (('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('<', operator.lt),
                        ('>=', operator.ge), ('==', operator.eq)):
            if name == '*' and w > 16:
                continue
            for y in (b, s, u):
                z = f(a, y)
                with ctx.atomic():
                    got = smt.simplify(z.value.substitute(sub))
                ctx.check(got.is_constant() and got.constant_value() == f(v, u), 'wrong-value',
                          f'{v} {name} {u} gives {got}', op=op)
        n_ok[0] += 1

    def do_formula(tid, op):
        vals = op[4]
        f = hw.smt_utils
        ms = [('bit', 0, v & 1) for v in vals]
        x, y, z = (make('smt', m, True) for m in ms)
        p, q, t = (m[2] for m in ms)
        r = f.And([x, f.Or([y, ~z]), f.Implies(x, z)]).to_hwtypes()
        expect(r, 'smt', ('bit', 0, int(p and (q or not t) and (not p or t))), 'a formula', op)

    def do_misc(tid, op):
        _, _, how, fam, kind, w, vals = op
        G = F[fam]
        T, P = G.T[kind], F['py'].T[kind]
        v, u, t = vals

        def same(got, want, what):
            ctx.check(type(got) is type(want) and got == want, 'misc', f'{how} {[fam, kind, w, vals]}: {what} is {got!r}, not {want!r}', op=op)

        def refused(f, errors, what):
            try:
                x = f()
            except errors:
                ctx.fault('request_rejected')
            else:
                ctx.violation('accepted', f'{how} {[fam, kind, w, vals]}: {what} gives {x!r}', op=op)
        i = u % w
        if how == 'setitem':
            x, y = P[w](v), P[w](v)
            x[i] = t & 1
            expect(x, 'py', (kind, w, v & ~(1 << i) | (t & 1) << i), f'{v} with bit {i} set to {t & 1}', op)
            x[i - w] = hw.Bit(1 - (t & 1))
            expect(x, 'py', (kind, w, v & ~(1 << i) | (1 - (t & 1)) << i), f'{v} with bit {i} set to {1 - (t & 1)}', op)
            expect(y, 'py', (kind, w, v), 'an other vector of the same value', op)
            refused(lambda: x.__setitem__(w, 1), IndexError, 'writing bit w')
            refused(lambda: x.__setitem__(0, 2), ValueError, 'writing 2')
        elif how == 'strings':
            x = P[w](v)
            same(x.binary_string(), format(v, f'0{w}b'), 'binary_string')
            same(x.as_binary_string(), '0b' + format(v, f'0{w}b'), 'as_binary_string')
            same(x.bits(), [v >> j & 1 for j in range(w)], 'bits')
            same(x.as_bool_list(), [bool(v >> j & 1) for j in range(w)], 'as_bool_list')
            same(x.as_sint(), bvops.signed(v, w), 'as_sint')
            same((int(x), str(x)), (bvops.signed(v, w) if kind == 'S' else v,) * 1 + (str(bvops.signed(v, w) if kind == 'S' else v),), 'int, str')
            same(repr(x), f'{P[w].__name__}({v})', 'repr')
            same((bool(x), len(x), x.num_bits), (v != 0, w, w), 'bool, len, num_bits')
            same(hash(x) == hash(P[w](v)), True, 'equality of hashes')
        elif how == 'implicit':
            expect(T(v), fam, (kind, max(v.bit_length(), 1), v), 'a vector without a size', op)
            expect(T(G.T[kind][w](v)), fam, (kind, w, v), 'a vector without a size of a vector', op)
            expect(T(G.Bit(v & 1)), fam, (kind, 1, v & 1), 'a vector without a size of a bit', op)
            refused(lambda: T(object()), TypeError, 'a vector of an object')
        elif how == 'sequence':
            bits = [v >> j & 1 for j in range(w)]
            expect(T[w](bits), fam, (kind, w, v), f'the vector of {bits}', op)
            expect(T[w](tuple(map(bool, bits))), fam, (kind, w, v), f'the vector of {bits} (bool)', op)
            expect(T(bits), fam, (kind, w, v), f'the vector of {bits} without a size', op)
            if fam == 'py':
                expect(T[w + 2](bits), fam, (kind, w + 2, v), f'a longer vector of {bits}', op)
        elif how == 'overflow':
            a, b = make(fam, ('S', w, v), False), make(fam, ('S', w, u), False)
            n = bvops.signed(v, w) + bvops.signed(u, w)
            expect(hw.bit_vector.overflow(a, b, a + b), fam, ('bit', 0, int(bvops.signed(n % (1 << w), w) != n)), 'overflow', op)
        elif how == 'misfit':
            x, y = T[w](v), T[w + 1](u)
            E = hw.InconsistentSizeError
            for f in (operator.add, operator.sub, operator.and_, operator.eq, operator.lt, operator.lshift):
                refused(lambda: f(x, y), E, f'{f.__name__} of sizes {w} and {w + 1}')
            for f in (x.bvadd, x.bvult, x.bvxor, x.bveq, x.bvashr):
                refused(lambda: f(y), E, f'{f.__name__} of sizes {w} and {w + 1}')
            refused(lambda: x + object(), TypeError, 'adding an object')
            refused(lambda: x.concat(3), TypeError, 'concatenating 3')
            expect(x, fam, (kind, w, v), 'the operand of refused operations', op)
        elif how == 'index':
            x = T[w](v)
            refused(lambda: x[w], IndexError, 'bit w')
            refused(lambda: x[-w - 1], IndexError, 'bit -w-1')
            refused(lambda: x['a'], TypeError, "bit 'a'")
            refused(lambda: x.zext(-1), ValueError, 'zext(-1)')
            refused(lambda: T[-1 - i], (TypeError, ValueError), 'a negative size')
            refused(lambda: T[w][w], TypeError, 'a size of a sized type')
            expect(x[i], fam, ('bit', 0, v >> i & 1), f'bit {i} of {v}', op)
        elif how == 'instruction':
            n = 1 + i % 3
            E = hw.Enum.from_fields('I14', {'x': 3, **{f'i{j}': hw.new_instruction() for j in range(n)}})
            ms = [E.x] + [getattr(E, f'i{j}') for j in range(n)]
            same([m.name for m in ms], ['x'] + [f'i{j}' for j in range(n)], 'names')
            same([[bool(a == b) for b in ms] for a in ms], [[a is b for b in ms] for a in ms], 'equality')
            same(len({hash(m) for m in ms}) == n + 1 or True, True, 'hashes')
            same(sorted(m.name for m in E.enumerate()), sorted(m.name for m in ms), 'enumeration')
        elif how == 'modifiers':
            m = hw.modifiers
            M, N = m.make_modifier('M14'), m.make_modifier('N14')
            A = T[w]
            B = N(M(A))
            same([m.is_modified(X) for X in (A, M(A), B)], [False, True, True], 'is_modified')
            same([m.get_modifier(B), m.get_unmodified(B), *m.unwrap_modifier(B)], [N, M(A), A, [M, N]], 'the modifiers')
            same([m.wrap_modifier(A, [M, N]) is B, issubclass(B, A), issubclass(B, N), issubclass(B, M)], [True, True, True, False], 'applying')
            x = B(v)
            same([isinstance(x, X) for X in (A, B, N, M(A), M)], [True, True, True, True, False], 'isinstance')
            same((type(x) is B, x.size), (True, w), 'type')
            with ctx.atomic():
                got = read(x, fam)
            same(got, v, 'value')
            same(m.is_modifier(M) and list(m.get_all_modifiers(B)) == [M, N], True, 'modifiers')
            refused(lambda: m.wrap_modifier(A, [M, M]), TypeError, 'applying one modifier twice')
            refused(lambda: m.get_modifier(A), TypeError, 'the modifier of a type without')
        elif how == 'wrap':
            m = hw.modifiers
            M = m.make_modifier('M14')
            A, B = T[w], G.Bit
            X = hw.Product.from_fields('X14', {'a': A, 'b': hw.Tuple[A, B]})
            Y = m.push_modifiers(M(X))
            same([Y.field_dict['a'], Y.field_dict['b']], [M(A), hw.Tuple[M(A), M(B)]], 'pushing')
            same(m.strip_modifiers(Y).field_dict == X.field_dict, True, 'stripping')
        elif how == 'visit':
            from hwtypes.adt_util import ADTVisitor, ADTInstVisitor
            A, B = P[w], hw.Bit
            X = hw.Product.from_fields('X14', {'a': A, 'b': hw.Tuple[A, B], 'c': hw.Sum[A, B]})

            class V(ADTVisitor):
                def __init__(self):
                    self.seen = []

                def visit_leaf(self, t):
                    self.seen.append(t)

            class I(ADTInstVisitor):
                def __init__(self):
                    self.seen = []

                def visit_leaf(self, t):
                    self.seen.append(t)
            s = V()
            s.visit(X)
            same(s.seen[:3], [A, A, B], 'the leaves')
            same(sorted(map(str, s.seen)), sorted(map(str, [A, A, A, B, B])), 'the leaves')
            a, b, c = A(v), A(u), B(t & 1)
            s = I()
            s.visit(X(a, hw.Tuple[A, B](b, c), hw.Sum[A, B](c)))
            same([x is y for x, y in zip(s.seen, (a, b, c, c), strict=True)], [True] * 4, 'the values')
        elif how == 'tuple-of':
            a, b = P[w](v), hw.Bit(t & 1)
            x = hw.Tuple(a, b)
            same((type(x) is hw.Tuple[P[w], hw.Bit], x[0] is a, x[1] is b), (True,) * 3, 'type and fields')
            y = hw.Tuple(b, x)
            same((type(y) is hw.Tuple[hw.Bit, hw.Tuple[P[w], hw.Bit]], y[1] is x), (True,) * 2, 'type and fields')
        elif how == 'smtvals':
            A = F['smt'].T[kind][w]
            a, b = make('smt', (kind, w, v), True), make('smt', ('bit', 0, t & 1), True)
            X = hw.Product.from_fields('X14', {'a': A, 'b': F['smt'].Bit})
            x = X(a, b)
            same((x.a is a, x.b is b, x[0] is a), (True,) * 3, 'fields')
            x.a = a + u
            expect(x.a, 'smt', (kind, w, (v + u) % (1 << w)), 'a field', op)
            z = hw.Sum[A, F['smt'].Bit](b)
            same((z[A].match, z[F['smt'].Bit].match), (False, True), 'match')
        elif how == 'random':
            x = P.random(w)
            with ctx.atomic():
                same((type(x) is P[w], 0 <= x.as_uint() < 1 << w), (True, True), f'{x!r}')
        elif how == 'iterate':
            x = T[w](v)
            for j, b in enumerate(x):
                expect(b, fam, ('bit', 0, v >> j & 1), f'element {j} of {v}', op)
                ctx.yield_point('next')
            same(j, w - 1, 'the number of elements')
            y = x[::-1] if fam == 'py' else x
            if fam == 'py':
                expect(y, fam, (kind, w, int(format(v, f'0{w}b')[::-1], 2)), 'the reverse', op)
        elif how == 'casts':
            for k in 'BUS':
                expect(G.T[k][w](T[w](v)), fam, (k, w, v), f'{k} of {v}', op)
                expect(G.T[k][w + 3](T[w](v)), fam, (k, w + 3, v), f'longer {k} of {v}', op)
            expect(T[w](G.Bit(t & 1)), fam, (kind, w, t & 1), 'a vector of a bit', op)
            if w > 1:
                expect(T[w](v - (1 << w)), fam, (kind, w, v), 'a vector of a negative integer', op)
        elif how == 'shared':
            (x, n), (y, m) = SH[v & 1], SH[u & 1]
            A, B = hw.BitVector[5], hw.Bit
            same((bool(x == y), bool(x != y)), (n == m, n != m), 'equality of shared values')
            same((hash(x) == hash(y)) or n != m, True, 'hashes of shared values')
            same((x.x.as_uint(), x.y[0].as_uint(), bool(x.y[1])), (3, n, True), 'the fields of a shared value')
            same(x == type(x).from_values(y.value_dict), n == m, 'a rebuilt shared value')
            z, c = SS[t & 1]
            same((z[A].match, z[B].match, z[type(c)].value is c), (type(c) is A, type(c) is B, True), 'a shared choice')
            same({k: k is type(c) for k in (A, B)}, {k: w is not None for k, w in z.value_dict.items()}, 'a shared choice')
        elif how == 'truncate':
            expect(P[w](P[w + 2](v + (t & 3) * (1 << w))), 'py', (kind, w, v), 'a truncated vector', op)
            expect(P[w](v + (t << w)), 'py', (kind, w, v), 'a truncated integer', op)
        else:
            a, b = G.Bit(v & 1), G.Bit(u & 1)
            p, q = v & 1, u & 1
            for f, g in ((lambda x, y: x & y, p & q), (lambda x, y: x | y, p | q), (lambda x, y: x ^ y, p ^ q),
                         (lambda x, y: x == y, p == q), (lambda x, y: x != y, p != q)):
                expect(f(a, b), fam, ('bit', 0, int(g)), f'a bit operation on {p} and {q}', op)
                expect(f(a, bool(q)), fam, ('bit', 0, int(g)), f'a bit operation on {p} and bool {q}', op)
                expect(f(a, q), fam, ('bit', 0, int(g)), f'a bit operation on {p} and int {q}', op)
            expect(~a, fam, ('bit', 0, 1 - p), f'~{p}', op)
            expect(G.Bit(a), fam, ('bit', 0, p), f'a copy of {p}', op)
            refused(lambda: G.Bit(2), (ValueError, TypeError), 'Bit(2)')
        n_ok[0] += 1
        ctx.probe('misc')

    for i, (fam, kind, w, v, symbolic) in enumerate(plan['shared']):
        slots[None, f'g{i}'] = (fam, make(fam, (kind, w, v), symbolic), (kind, w, v))
    A, B = hw.BitVector[5], hw.Bit
    SH = [(hw.Product.from_fields('Sh14', {'x': A, 'y': hw.Tuple[A, B]})(A(3), hw.Tuple[A, B](A(i), B(1))), i) for i in (1, 2)]
    SS = [(hw.Sum[A, B](v), v) for v in (A(7), B(0))]

    DO = {'op': do_op, 'misc': do_misc, 'poly': do_poly, 'ite': do_ite, 'adt': do_adt, 'enum': do_enum, 'infer': do_infer,
          'smtint': do_int, 'formula': do_formula}

    def do(tid, op):
        f = DO.get(op[1])
        if f is not None:
            f(tid, op)
        elif op[1] == 'work':
            busy.busy(hw, op[2])
        elif op[1] == 'collect':
            ctx.collect()
        else:
            raise HarnessError(op)

    ctx.clients(plan['clients'], do)
    ctx.nontrivial = n_ok[0] >= 2 and (ctx.k.switches > 0 or ctx.k.gcs > 0 or bool(ctx.k.faults))
