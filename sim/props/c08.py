"""C08: mutable values act like fresh values after any history of writes.

Every handle is a real value together with a model graph of nodes (the same
sharing of contained objects, plain Python contents).  After every operation
the value is compared with one newly constructed from the model's contents.
"""
import copy
import warnings

import pysmt.shortcuts
import z3

from .. import busy, seams, solverfault
from ..solverfault import BACKEND
from ..typespec import HarnessError, HookError, Missing
from . import c01

ID = 'C08'
hw = None
BASE = (Exception,)


def prepare():
    global hw
    import hwtypes
    hw = hwtypes
    warnings.simplefilter('ignore')
    solverfault.prepare()


# ------------------------------------------------------------- generation ----
BVF = {'B': 'BitVector', 'S': 'SIntVector', 'U': 'UIntVector'}


def gen_types(r):
    """[[label, spec]...]; specs refer to earlier labels."""
    ts = [['bit', ['bit']], ['F', ['foreign', None]], ['G', ['foreign', 'F']], ['int', ['plain', 'int']],
          ['str', ['plain', 'str']]]
    ts.append(['E', ['enum', 'E', [['p', 0], ['q', 5], ['r', 2]]]])
    sizes = r.sample([1, 2, 3, 4, 5, 8, 9, 17, 64], 2)
    for s in sizes:
        for f in 'BSU':
            ts.append([f'{f}{s}', ['bv', BVF[f], s]])
        ts.append([f'Y{s}', ['userbv', r.choice('BSU'), s]])
        ts.append([f'M{s}', ['mod', 'M', f'B{s}']])
        ts.append([f'N{s}', ['mod', 'N', f'{r.choice("SUY")}{s}']])
        ts.append([f'Q{s}', ['bv', r.choice(['SMTBitVector', 'SMTSIntVector']), s]])
        ts.append([f'Z{s}', ['bv', r.choice(['z3BitVector', 'z3UIntVector']), s]])
    leaves = [t[0] for t in ts if t[0] not in ('G',) and t[0][0] not in 'QZ']
    if r.random() < .2:
        leaves += [t[0] for t in ts if t[0][0] in 'QZ']
    adts = []
    for i in range(r.randint(2, 6)):
        lab = f'T{i}'

        def sub():
            x = r.random()
            if adts and x < .3:
                return r.choice(adts)
            if x < .58:
                return 'F'
            return r.choice(leaves)
        k = r.choice(['tuple', 'tuple', 'prod', 'prod', 'aprod', 'sum', 'sum', 'union', 'union', 'sub', 'mod'])
        if k == 'sub' and not adts or k == 'mod' and not adts:
            k = 'prod'
        names = r.sample(['a', 'b', 'c', 'd'], r.randint(1, 4))
        if k == 'tuple':
            sp = [k, [sub() for _ in names]]
        elif k == 'sum':
            sp = [k, sorted({sub() for _ in names})]
        elif k in ('prod', 'union'):
            sp = [k, f'P{i}', [[n, sub()] for n in names], r.random() < .3]
        elif k == 'aprod':
            sp = [k, [[n, sub()] for n in names]]
        elif k == 'mod':
            m, a = r.choice('MN'), r.choice(adts)
            x, used = a, set()
            while dict(ts)[x][0] in ('sub', 'mod'):
                used.add(dict(ts)[x][1])
                x = dict(ts)[x][-1]
            # a modifier applies once
            sp = [k, m, a] if m not in used else ['sub', a]
        else:
            sp = ['sub', r.choice(adts)]
        ts.append([lab, sp])
        adts.append(lab)
    return ts, adts, sizes


def subtypes(ts, lab):
    """Labels whose values are (also) values of lab."""
    d = dict(ts)
    out = [lab]
    if lab == 'F':
        return ['F', 'G', 'G']
    if lab[0] == 'B' and lab[1:].isdigit():
        s = lab[1:]
        out += [x for x in (f'S{s}', f'U{s}', f'Y{s}', f'M{s}', f'N{s}') if x in d]
    for t, sp in ts:
        if sp[0] == 'sub' and sp[1] == lab or sp[0] == 'mod' and sp[2] == lab:
            out.append(t)
    return out


def gen_val(r, ts, lab, depth=4, exact=False):
    """A description of a value of the type labelled lab: [label, payload]."""
    d = dict(ts)
    if not exact and r.random() < .25:
        lab = r.choice(subtypes(ts, lab))
    sp = d[lab]
    while sp[0] in ('sub', 'mod') and d[sp[-1]][0] not in ('bv', 'userbv'):
        sp = d[sp[-1]]
    k = sp[0]
    if k == 'bit':
        return [lab, r.randrange(2)]
    if k in ('bv', 'userbv', 'mod'):
        n = int(''.join(c for c in lab if c.isdigit())) if lab[0] != 'T' else 8
        return [lab, r.choice([0, (1 << n) - 1, 1, r.getrandbits(n)]) % (1 << n)]
    if k == 'foreign':
        return [lab, r.randrange(3)]
    if k == 'plain':
        return [lab, r.randrange(4)]
    if k == 'enum':
        return [lab, r.choice([n for n, _ in sp[2]])]
    if k == 'tuple':
        return [lab, [gen_val(r, ts, t, depth - 1) for t in sp[1]]]
    if k in ('prod', 'aprod'):
        return [lab, [gen_val(r, ts, t, depth - 1) for _, t in (sp[2] if k == 'prod' else sp[1])]]
    if k == 'sum':
        t = r.choice(sp[1])
        return [lab, gen_val(r, ts, t, depth - 1, True)]
    if k == 'union':
        n, t = r.choice(sp[2])
        return [lab, [n, gen_val(r, ts, t, depth - 1)]]
    raise HarnessError(sp)


def generate(r, tier):
    nc = r.choice([1, 1, 1, 2, 2, 3])
    ts, adts, sizes = gen_types(r)
    d = dict(ts)
    labels = [t[0] for t in ts]
    bvl = [x for x in labels if d[x][0] in ('bv', 'userbv') or d[x][0] == 'mod' and x[0] in 'MN']
    clients = []
    for c in range(nc):
        slots = [f'c{c}h{i}' for i in range(4)]
        ops = []
        for s in slots:
            lab = r.choice(adts * 3 + bvl)
            ops.append([f'{s}n', 'new', s, gen_val(r, ts, lab)])
        for j in range(r.randint(6, 26 if nc == 1 else 12)):
            oid = f'c{c}.{j}'
            s = r.choice(slots)
            x = r.random()
            if x < .58:
                w = [r.choices(range(4), k=r.choice([0, 0, 0, 1, 1, 2, 3])),
                     r.choice(['item', 'item', 'name', 'name', 'bad']), r.randint(-5, 5)]
                y = r.random()
                if y < .45:
                    w.append(['fit', r.getrandbits(24)])
                elif y < .75:
                    w.append(['val', gen_val(r, ts, r.choice(labels))])
                else:
                    w.append(['h', r.choice(slots)])
                opt = {}
                y = r.random()
                if y < .3:
                    opt['hook'] = r.choice(['raise', 'raise', 'yield', 'gc', 'inner', 'inner', 'work'])
                    opt['after'] = r.choice([0, 0, 0, 1])
                    opt['inner'] = [r.choice(['item', 'name']), r.randint(-4, 4), ['fit', r.getrandbits(24)]]
                elif y < .4:
                    opt['solver'] = r.randrange(12)
                opt['bit'] = r.randrange(11)
                ops.append([oid, 'set', s, w, opt])
            elif x < .64:
                ops.append([oid, 'aug', s, r.choices(range(4), k=r.choice([0, 0, 1])), r.randint(0, 4),
                            r.choice(['+', '&', '^', '|', '<<', '-']), r.randrange(9)])
            elif x < .70:
                ops.append([oid, 'new', s, gen_val(r, ts, r.choice(adts * 3 + bvl))])
            elif x < .78:
                ops.append([oid, 'from', s, r.choice(slots), r.choice(['same', 'same', 'missing', 'extra', 'wrong', 'none', 'two']),
                            r.randrange(8)])
            elif x < .83:
                ops.append([oid, 'snap', s])
            elif x < .88:
                ops.append([oid, 'restore', r.choice(slots)])
            elif x < .93:
                ops.append([oid, 'cmp', s, r.choice(slots)])
            elif x < .945:
                ops.append([oid, 'collect'])
            elif x < .96:
                ops.append([oid, 'copy', s, r.choice(slots), r.random() < .4])
            elif x < .975:
                ops.append([oid, 'child', s, r.choice(slots), r.randrange(4)])
            else:
                ops.append([oid, 'work', r.randrange(3000)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'types': ts, 'clients': clients}


# ------------------------------------------------------------------ model ----
class Node:
    """Contents of one (possibly shared) value."""
    __slots__ = ('lab', 'k', 'v')

    def __init__(self, lab, k, v):
        self.lab, self.k, self.v = lab, k, v

    def clone(self, memo):
        if id(self) not in memo:
            v = self.v
            if isinstance(v, Node):
                v = v.clone(memo)
            elif isinstance(v, list):
                v = [x.clone(memo) if isinstance(x, Node) else x for x in v]
            memo[id(self)] = Node(self.lab, self.k, v)
        return memo[id(self)]


class BadInt(int):
    """An int whose special methods fail on demand."""
    __slots__ = ()
    world = None

    def _m(name):
        def f(self, *a):
            w = BadInt.world
            bad = w.bad.get(w.tid()) if w is not None else None
            if bad is not None and bad(name):
                raise HookError(name)
            return getattr(int, name)(self, *a)
        return f

    __hash__ = _m('__hash__')
    __eq__ = _m('__eq__')
    __lt__ = _m('__lt__')
    __ge__ = _m('__ge__')
    __le__ = _m('__le__')
    __bool__ = _m('__bool__')
    __rlshift__ = _m('__rlshift__')
    __index__ = _m('__index__')
    __int__ = _m('__int__')
    del _m


def outcome(fn):
    try:
        r = fn()
    except BASE as e:
        return ['raised', type(e).__name__]
    return r


class World:
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.spec = {}
        self.T = {}
        self.quiet = 0
        self.armed = {}
        self.bad = {}
        BadInt.world = self
        self.tokens = {}
        world = self

        class HookMeta(seams.LeafMeta):
            def __instancecheck__(cls, obj):
                r = type.__instancecheck__(cls, obj)
                if not world.quiet:
                    world.hook()
                return r
        self.HookMeta = HookMeta
        mods = {}
        for lab, sp in plan['types']:
            self.spec[lab] = sp
            self.T[lab] = self.mk(lab, sp, mods)

    def mk(self, lab, sp, mods):
        k, T = sp[0], self.T
        if k == 'bit':
            return hw.Bit
        if k == 'plain':
            return {'int': int, 'str': str}[sp[1]]
        if k == 'bv':
            ns = {'z3UIntVector': hw.z3_bit_vector.z3UIntVector}
            return (ns[sp[1]] if sp[1] in ns else getattr(hw, sp[1]))[sp[2]]
        if k == 'userbv':
            base = getattr(hw, BVF[sp[1]])
            return type('Y', (base,), {'__module__': __name__})[sp[2]]
        if k == 'mod':
            m = mods.get(sp[1])
            if m is None:
                m = mods[sp[1]] = hw.modifiers.make_modifier(sp[1])
            return m(T[sp[2]])
        if k == 'foreign':
            base = (T[sp[1]],) if sp[1] else ()
            return self.HookMeta(lab, base, {'__module__': __name__, '__init__': _tok_init, '__repr__': _tok_repr,
                                             '__deepcopy__': lambda self, memo: self})
        if k == 'enum':
            return hw.Enum.from_fields(sp[1], dict(map(tuple, sp[2])))
        if k == 'tuple':
            return hw.Tuple[tuple(T[x] for x in sp[1])]
        if k == 'sum':
            return hw.Sum[tuple(T[x] for x in sp[1])]
        if k == 'aprod':
            return hw.adt.AnonymousProduct[{n: T[x] for n, x in sp[1]}]
        if k in ('prod', 'union'):
            base = hw.Product if k == 'prod' else hw.TaggedUnion
            if sp[3]:
                return base.from_fields(sp[1], {n: T[x] for n, x in sp[2]}, cache=False)
            return type(base)(sp[1], (base,), {'__module__': __name__, **{n: T[x] for n, x in sp[2]}})
        if k == 'sub':
            b = T[sp[1]]
            return type(b)(lab, (b,), {'__module__': __name__})
        raise HarnessError(sp)

    # kind of a label's values: bit bv foreign plain enum tuple(names or None) sum union
    def kind(self, lab):
        sp = self.spec[lab]
        while sp[0] in ('sub', 'mod'):
            sp = self.spec[sp[-1]]
        k = sp[0]
        if k == 'userbv':
            return 'bv', None
        if k == 'tuple':
            return 'tuple', [None] * len(sp[1])
        if k == 'prod':
            return 'tuple', [n for n, _ in sp[2]]
        if k == 'aprod':
            return 'tuple', [n for n, _ in sp[1]]
        if k == 'sum':
            return 'sum', sp[1]
        if k == 'union':
            return 'union', [n for n, _ in sp[2]]
        return k, None

    def size(self, lab):
        return self.T[lab].size

    def node(self, desc):
        lab, p = desc
        k = self.kind(lab)[0]
        if k == 'tuple':
            return Node(lab, k, [self.node(x) for x in p])
        if k == 'sum':
            return Node(lab, k, self.node(p))
        if k == 'union':
            return Node(lab, k, [p[0], self.node(p[1])])
        if k == 'bv':
            p %= 1 << self.size(lab)
        return Node(lab, k, p)

    def build(self, n, memo=None):
        """A new value with the node's contents; memo keeps the sharing."""
        if memo is not None and id(n) in memo:
            return memo[id(n)]
        T, k = self.T[n.lab], n.k
        if k == 'bit':
            v = T(n.v)
        elif k == 'bv':
            v = T(n.v)
        elif k == 'foreign':
            v = self.tokens.get((n.lab, n.v))
            if v is None:
                v = self.tokens[n.lab, n.v] = T(n.v)
        elif k == 'plain':
            v = n.v if T is int else 'x' * n.v
        elif k == 'enum':
            v = getattr(T, n.v)
        elif k == 'tuple':
            v = T(*[self.build(x, memo) for x in n.v])
        elif k == 'sum':
            v = T(self.build(n.v, memo))
        elif k == 'union':
            v = T(**{n.v[0]: self.build(n.v[1], memo)})
        else:
            raise HarnessError(k)
        if memo is not None:
            memo[id(n)] = v
        return v

    def kids(self, n):
        if n.k == 'tuple':
            return n.v
        if n.k == 'sum':
            return [n.v]
        if n.k == 'union':
            return [n.v[1]]
        return []

    def content(self, v, n):
        """Real contents in the order of kids(n)."""
        if n.k == 'tuple':
            return [v[i] for i in range(len(n.v))]
        if n.k == 'sum':
            return [v[self.sum_field(n)].value]
        if n.k == 'union':
            return [getattr(v, n.v[0]).value]
        return []

    def sum_field(self, n):
        return self.T[n.v.lab]

    def tid(self):
        k = self.ctx.k
        return k.cur.tid if k.cur is not None else -1

    def hook(self):
        ctx = self.ctx
        a = self.armed.get(self.tid())
        ctx.yield_point('instancecheck')
        if a is None:
            return
        if a['after'] > 0:
            a['after'] -= 1
            return
        del self.armed[self.tid()]
        h = a['hook']
        ctx.fault('operand_check_' + h)
        if h == 'raise':
            raise HookError('armed')
        if h == 'gc':
            ctx.k.collect()
        elif h == 'inner':
            a['run']()
        elif h == 'work':
            busy.busy(hw, a['n'])
        ctx.yield_point('instancecheck-end')


def _tok_init(self, n):
    self.n = n


def _tok_repr(self):
    return f'<{type(self).__name__} {self.n}>'


def bv_int(v):
    if isinstance(v, hw.SMTBitVector):
        x = pysmt.shortcuts.simplify(v.value)
        return x.constant_value() if x.is_constant() else str(x)
    if isinstance(v, hw.z3BitVector):
        x = z3.simplify(v.value)
        return x.as_long() if z3.is_bv_value(x) else str(x)
    return v.as_uint()


def observe(w, v, n, f2, depth=0):
    """Everything a user can see of v, whose contents should be n's."""
    T = type(v)
    k = n.k
    out = [T.__name__, k]

    def o(name, fn):
        out.append([name, outcome(fn)])
    if k == 'foreign' or k == 'plain':
        return out + [repr(v)]
    o('repr', lambda: repr(v))
    o('hash', lambda: hash(v))
    o('eq', lambda: bool(v == f2))
    o('req', lambda: bool(f2 == v))
    o('ne', lambda: bool(v != f2))
    if k == 'bit':
        return out + [int(bool(v))]
    if k == 'enum':
        return out + [v.name]
    if k == 'bv':
        out.append(bv_int(v))
        o('str', lambda: str(v))
        if isinstance(v, hw.BitVector):
            out += [int(v), len(v), [int(b) for b in v.bits()], v.bit_length() if hasattr(v, 'bit_length') else None,
                    v.value]
        return out
    from_values = T.from_values
    if k == 'tuple':
        names = w.kind(n.lab)[1]
        for i, nm in enumerate(names):
            c = v[i]
            out.append(observe(w, c, n.v[i], f2[i], depth + 1))
            out.append(['type', isinstance(c, T.fields[i])])
            out.append(['neg', v[i - len(names)] is c])
            if nm is not None:
                out.append(['attr', getattr(v, nm) is c])
        o('beyond', lambda: v[len(names)])
        out.append(['slice', [x is y for x, y in zip(v[:], [v[i] for i in range(len(names))])], type(v[:]).__name__])
        d = v.value_dict
        out.append(['dict', type(d).__name__, [[str(x), d[x] is v[i]] for i, x in enumerate(d)]])
        o('from', lambda: bool(from_values(d) == f2))
        o('fromt', lambda: type(from_values(d)) is T)
        o('value', lambda: [x is v[i] for i, x in enumerate(v.value)])
    elif k == 'sum':
        c = None
        for lab in w.kind(n.lab)[1]:
            F = w.T[lab]
            m = outcome(lambda: v[F])
            if isinstance(m, list):
                out.append(m)
                continue
            val = outcome(lambda: m.value)
            out.append(['match', lab, m.match, isinstance(val, list) or 'value'])
            if m.match:
                c = m.value
        out.append(['has', c is not None])
        if c is not None:
            f2c = next(x for x in (f2[w.T[lab]] for lab in w.kind(n.lab)[1]) if x.match).value
            out.append(['type', isinstance(c, tuple(T.fields)), type(c) in T])
            out.append(observe(w, c, n.v, f2c, depth + 1))
        o('bad', lambda: v[w.HookMeta])
        # order of a sum's fields is the type's affair (C10)
        d = v.value_dict
        out.append(['dict', sorted([x.__name__, y is None or y is c] for x, y in d.items())])
        o('from', lambda: bool(from_values(d) == f2))
        o('value', lambda: v.value is c)
    elif k == 'union':
        names = w.kind(n.lab)[1]
        c = None
        for nm in names:
            m = getattr(v, nm)
            val = outcome(lambda: m.value)
            out.append(['match', nm, m.match, isinstance(val, list) or 'value'])
            if m.match:
                c = m.value
                out.append(['type', isinstance(c, T.field_dict[nm])])
                out.append(observe(w, c, n.v[1], getattr(f2, nm).value, depth + 1))
        out.append(['has', c is not None])
        d = v.value_dict
        out.append(['dict', sorted([x, y is None or y is c] for x, y in d.items())])
        o('from', lambda: bool(from_values(d) == f2))
        for nm in names:
            o('sumread', lambda: v[T.field_dict[nm]].match)
        o('value', lambda: v.value is c)
    return out


def copyable(w, n, deep):
    """Products can't be copied (their constructor needs arguments); the parts
    of terms must not."""
    if n.k == 'tuple' and w.kind(n.lab)[1] and w.kind(n.lab)[1][0] is not None:
        return False
    if n.k == 'bv' and deep and n.lab[0] in 'QZ':
        return False
    return not deep or all(copyable(w, x, True) for x in w.kids(n))


def verify(ctx, w, v, n, op, why):
    with ctx.atomic():
        w.quiet += 1
        armed, BACKEND.armed = BACKEND.armed, None
        try:
            T = w.T[n.lab]
            ctx.check(type(v) is T, 'type-changed', f'after {why}: the value became a {type(v)}', op=op)
            f, f2 = w.build(n, {}), w.build(n, {})
            a, b = observe(w, v, n, f2), observe(w, f, n, f2)
            if a != b:
                diff = next(([x, y] for x, y in zip(a, b) if x != y), [a, b])
                ctx.violation('unlike-fresh', f'after {why} a value of {T} differs from a new one with the same contents: '
                              f'{str(diff[0])[:300]} != {str(diff[1])[:300]}', op=op)
            outside(ctx, w, v, n, op, why)
        finally:
            w.quiet -= 1
            BACKEND.armed = armed


def outside(ctx, w, v, n, op, why):
    T = type(v)
    if n.k == 'tuple':
        for i, c in enumerate(w.content(v, n)):
            ctx.check(isinstance(c, T.fields[i]), 'outside-type', f'after {why} field {i} of {T} holds {c!r}', op=op)
            outside(ctx, w, c, n.v[i], op, why)
    elif n.k == 'sum':
        (c,) = w.content(v, n)
        ctx.check(type(c) in T.fields, 'outside-type', f'after {why} {T} holds {c!r}', op=op)
        outside(ctx, w, c, n.v, op, why)
    elif n.k == 'union':
        (c,) = w.content(v, n)
        ctx.check(isinstance(c, T.field_dict[n.v[0]]), 'outside-type', f'after {why} {T} holds {c!r}', op=op)
        outside(ctx, w, c, n.v[1], op, why)


class Quiet:
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w

    def __enter__(self):
        self.a = self.ctx.atomic()
        self.a.__enter__()
        self.w.quiet += 1

    def __exit__(self, *e):
        self.w.quiet -= 1
        self.a.__exit__(*e)


BITVALS = ['F', 'T', 0, 1, 'B0', 'B1', 2, 's', 'f', 'bv1', 'bad1']


def run(ctx, plan):
    w = World(ctx, plan)
    BACKEND.ctx = ctx
    handles, snaps = {}, {}
    done = [0]
    fits = {}
    count = {}

    def fit_node(lab, seed):
        """A new node of a type acceptable where lab is declared."""
        key = (lab, seed)
        if key not in fits:
            from ..kernel import rng_of
            fits[key] = gen_val(rng_of('fit', *key), plan['types'], lab)
        return w.node(fits[key])

    def get(h):
        if h not in handles:
            raise Missing(h)
        return handles[h]

    def declared(n, i):
        sp = w.spec[n.lab]
        while sp[0] in ('sub', 'mod'):
            sp = w.spec[sp[-1]]
        if sp[0] == 'tuple':
            return sp[1][i]
        return (sp[2] if sp[0] in ('prod', 'union') else sp[1])[i][1]

    def do_set(tid, op, v, n, how, idx, val, opt):
        """One write at (v, n); updates the model when it is accepted."""
        kind, names = w.kind(n.lab)
        if n.k == 'bv':
            return set_bit(tid, op, v, n, how, idx, opt)
        if n.k not in ('tuple', 'sum', 'union'):
            return 'leaf'
        with Quiet(ctx, w):
            arity = len(names)
            i = idx % arity if arity else 0
            foreign = [j for j in range(arity) if (declared(n, j) if n.k != 'sum' else names[j]) == 'F']
            if opt.get('hook') and foreign and how != 'bad':
                # aim at a field whose type check calls back
                i = foreign[idx % len(foreign)]
                idx = i - arity if idx < 0 else i
                if val[0] == 'fit' and n.k != 'sum':
                    val = ['val', ['G', val[1] % 3]]
            if how == 'bad' and n.k == 'tuple':
                access = [arity + abs(idx), -arity - 1 - abs(idx), 'zz', None, slice(0, 1), slice(0, arity), slice(None, None, 2),
                          1.0, (0,)][idx % 9]
            elif n.k == 'tuple' and how == 'item':
                access = idx if -arity <= idx < arity else i
            elif n.k == 'sum':
                access = w.T[names[i]] if how != 'bad' else [w.T['str'], w.T['B' + str(w_size(w))], hw.BitVector, None, 'a', list][idx % 6]
            else:
                access = names[i]
            # the operand
            if val[0] == 'fit':
                vn = fit_node(declared(n, i) if n.k != 'sum' else names[i], val[1]) if arity else None
                if vn is None:
                    return 'leaf'
                x = w.build(vn)
            elif val[0] == 'val':
                vn = w.node(val[1])
                x = w.build(vn)
            else:
                x, vn = get(val[1])
                if contains(w, vn, n):
                    return 'cycle'
            if how == 'bad' and n.k == 'tuple' and isinstance(access, slice):
                x2 = x
                x = [x2] if idx % 2 else x2
            # does a fresh value accept these contents?
            ok = False
            if n.k == 'tuple':
                if isinstance(access, int):
                    if -arity <= access < arity:
                        p = access % arity
                        ok = not isinstance(outcome(lambda: w.T[n.lab](*[x if q == p else c for q, c in enumerate(w.content(v, n))])), list)
                elif isinstance(access, str) and access in names:
                    p = names.index(access)
                    ok = not isinstance(outcome(lambda: w.T[n.lab](*[x if q == p else c for q, c in enumerate(w.content(v, n))])), list)
                    if names[p] is None:
                        ok = False
            elif n.k == 'union':
                if how == 'bad':
                    ok = False
                else:
                    ok = not isinstance(outcome(lambda: w.T[n.lab](**{access: x})), list)
            else:
                ok = (isinstance(access, type) and any(access is w.T[q] for q in names) and isinstance(x, access)
                      and not isinstance(outcome(lambda: w.T[n.lab](x)), list))
        if opt.get('hook'):
            a = {'hook': opt['hook'], 'after': opt['after'], 'n': 7 * idx + 50}
            inner = opt['inner']

            def run_inner():
                # a second write to the same value from inside the check
                w.armed.pop(tid, None)
                do_set(tid, op, v, n, inner[0], inner[1], inner[2], {})
            a['run'] = run_inner
            w.armed[tid] = a
        try:
            if n.k == 'tuple' and how == 'name' and isinstance(access, str):
                setattr(v, access, x)
            elif n.k == 'union' and how == 'name':
                setattr(v, access, x)
            elif n.k == 'union' and how == 'item':
                setattr(v, access, x)
            elif n.k == 'union':
                if idx % 2:
                    delattr(v, access)
                else:
                    v[w.T[declared(n, i)]] = x
            elif how == 'bad' and n.k == 'tuple' and idx % 3 == 0 and names and names[i] is not None:
                access = names[i]
                delattr(v, access)
            else:
                v[access] = x
            err = None
        except HookError as e:
            err = e
        except BASE as e:
            from ..kernel import Violation
            if isinstance(e, (Violation, HarnessError, Missing)):
                raise
            err = e
        fired = opt.get('hook') and tid not in w.armed
        w.armed.pop(tid, None)
        name = type(err).__name__ if err else 'accepted'
        if isinstance(err, HookError):
            ctx.check(fired, 'harness', 'hook error without a hook', op=op)
            return 'operand-failed'
        ctx.check((err is None) == ok, 'accepts-wrongly' if err is None else 'rejects-wrongly',
                  f'writing {x!r} to {access!r} of {type(v)} was {name}, a new value with these contents '
                  f'{"can" if ok else "cannot"} be made', op=op)
        if err is None:
            if n.k == 'tuple':
                n.v[access % arity if isinstance(access, int) else names.index(access)] = vn
            elif n.k == 'union':
                n.v[:] = [access, vn]
            else:
                n.v = vn
        return name

    def set_bit(tid, op, v, n, how, idx, opt):
        T = w.T[n.lab]
        size = T.size
        fam = hw.SMTBit if isinstance(v, hw.SMTBitVector) else hw.z3Bit if isinstance(v, hw.z3BitVector) else hw.Bit
        b = BITVALS[opt.get('bit', 3)]
        bad = None
        x = {'F': False, 'T': True, 'B0': lambda: fam(0), 'B1': lambda: fam(1), 's': '1', 'f': 1.0,
             'bv1': lambda: T(1), 'bad1': lambda: BadInt(1)}.get(b, b)
        if callable(x):
            x = x()
        okv = b in ('F', 'T', 0, 1, 'B0', 'B1', 'bad1')
        bit = {'F': 0, 'T': 1, 'B0': 0, 'B1': 1, 'bad1': 1}.get(b, b)
        i = idx if how != 'bad' else [size, -size - 1, '0', None, slice(0, 1), 0.0, BadInt(0), 1 << 70, True][idx % 9]
        if b == 'bad1' or type(i) is BadInt:
            left = [opt.get('after', idx % 4)]

            def bad(name):
                left[0] -= 1
                return left[0] < 0
        ok = okv and isinstance(i, int) and -size <= i < size
        if 'solver' in opt and fam is not hw.Bit:
            BACKEND.armed = [tid, opt['solver']]
        if bad is not None:
            w.bad[tid] = bad
        try:
            v[i] = x
            err = None
        except BASE as e:
            err = e
        finally:
            w.bad.pop(tid, None)
            BACKEND.disarm(tid)
        if isinstance(err, HookError):
            ctx.fault('operand_fails')
            return 'operand-failed'
        if isinstance(err, MemoryError):
            return 'solver-failed'
        if isinstance(i, (float, bool)):
            ok = err is None        # either is fine
            if ok:
                i = int(i)
        ctx.check((err is None) == ok, 'accepts-wrongly' if err is None else 'rejects-wrongly',
                  f'{type(v)}[{i!r}] = {x!r} was {type(err).__name__ if err else "accepted"}', op=op)
        if err is None:
            i = int.__int__(i) if isinstance(i, int) else i
            i = i % size
            n.v = n.v & ~(1 << i) | bit << i
            return 'accepted'
        return type(err).__name__

    def walk(v, n, path):
        for p in path:
            ks = w.kids(n)
            if not ks:
                break
            p %= len(ks)
            v, n = w.content(v, n)[p], ks[p]
        return v, n

    def do(tid, op):
        try:
            _do(tid, op)
        except Missing:
            ctx.note('missing', op[0])

    def _do(tid, op):
        kind = op[1]
        if kind == 'new':
            with Quiet(ctx, w):
                n = w.node(op[3])
                handles[op[2]] = (w.build(n, {}), n)
            touched = [op[2]]
        elif kind == 'set':
            v, n = get(op[2])
            with Quiet(ctx, w):
                v, n = walk(v, n, op[3][0])
            res = do_set(tid, op, v, n, op[3][1], op[3][2], op[3][3], op[4])
            done[0] += 1
            ctx.probe('write_' + ('ok' if res == 'accepted' else 'none' if res in ('leaf', 'cycle') else 'rejected'))
            if res not in ('accepted', 'leaf', 'cycle'):
                ctx.fault('write_rejected')
            ctx.note('set', op[0], res)
            touched = [op[2]]
        elif kind == 'aug':
            v, n = get(op[2])
            with Quiet(ctx, w):
                v, n = walk(v, n, op[3])
                if n.k != 'tuple' or not n.v:
                    return
                i = op[4] % len(n.v)
                if n.v[i].k != 'bv':
                    return
                names = w.kind(n.lab)[1]
                old = n.v[i]
                size = w.size(old.lab)
                y = op[6] % (1 << size)
                if old.lab[0] in 'QZ' and op[5] == '^' and False:
                    return
                new = {'+': old.v + y, '-': old.v - y, '&': old.v & y, '^': old.v ^ y, '|': old.v | y,
                       '<<': old.v << y}[op[5]] % (1 << size)
            if names[i] is None or op[6] % 2:
                v[i] = augmented(v[i], op[5], y)
            else:
                setattr(v, names[i], augmented(getattr(v, names[i]), op[5], y))
            n.v[i] = Node(old.lab, 'bv', new)
            ctx.probe('write_augmented')
            touched = [op[2]]
        elif kind == 'from':
            touched = do_from(tid, op)
        elif kind == 'snap':
            v, n = get(op[2])
            with Quiet(ctx, w):
                if n.k in ('tuple', 'sum', 'union'):
                    held = list(n.v) if n.k != 'sum' else n.v
                    ms = []
                    if n.k == 'union':
                        ms = [[nm, getattr(v, nm)] for nm in w.kind(n.lab)[1]]
                    elif n.k == 'sum':
                        ms = [[lab, v[w.T[lab]]] for lab in w.kind(n.lab)[1]]
                    ms = [[nm, m, m.match, m.match and m.value] for nm, m in ms]
                    snaps[tid] = (n.lab, n.k, held, v.value_dict, ms)
            return
        elif kind == 'restore':
            if tid not in snaps:
                return
            lab, k, held, d, ms = snaps[tid]
            with Quiet(ctx, w):
                for nm, m, was, val in ms:
                    ctx.check(m.match == was and (not was or m.value is val), 'match-changed',
                              f'a match object for {nm} changed after a later write', op=op)
                if isinstance(outcome(lambda: w.T[lab].from_values(d)), list):
                    # Sum of a type and its subtype (documented in DESIGN): fresh ones fail as well
                    return
                n = Node(lab, k, list(held) if k != 'sum' else held)
                handles[op[2]] = (w.T[lab].from_values(d), n)
            ctx.probe('rebuilt_from_old_dict')
            touched = [op[2]]
        elif kind == 'cmp':
            (a, n), (b, m) = get(op[2]), get(op[3])
            with Quiet(ctx, w):
                memo = {}
                fa, fb = w.build(n, memo), w.build(m, memo)
                for nm, f in (('==', lambda x, y: bool(x == y)), ('!=', lambda x, y: bool(x != y))):
                    got, want = outcome(lambda: f(a, b)), outcome(lambda: f(fa, fb))
                    ctx.check(got == want, 'unlike-fresh', f'{a!r} {nm} {b!r} gives {got}, new values give {want}', op=op)
                if plain(n) == plain(m):
                    ctx.check(outcome(lambda: hash(a)) == outcome(lambda: hash(b)), 'hash-differs',
                              f'{a!r} and {b!r} are equal but their hashes differ', op=op)
            touched = []
        elif kind == 'copy':
            v, n = get(op[2])
            with Quiet(ctx, w):
                deep = op[4]
                if not copyable(w, n, deep):
                    return
                if deep:
                    handles[op[3]] = (copy.deepcopy(v), n.clone({}))
                else:
                    handles[op[3]] = (copy.copy(v), Node(n.lab, n.k, list(n.v) if isinstance(n.v, list) else n.v))
            ctx.probe('copied')
            touched = [op[3], op[2]]
        elif kind == 'child':
            v, n = get(op[2])
            with Quiet(ctx, w):
                ks = w.kids(n)
                if not ks:
                    return
                i = op[4] % len(ks)
                if ks[i].k in ('plain', 'foreign'):
                    return
                handles[op[3]] = (w.content(v, n)[i], ks[i])
            ctx.probe('shared_child')
            touched = [op[3]]
        elif kind == 'collect':
            ctx.collect()
            touched = []
        elif kind == 'work':
            name, res = busy.busy(hw, op[2])
            if res != 'ok':
                ctx.fault('operation_fails')
            touched = []
        else:
            raise HarnessError(op)
        mine = f'c{tid}h'
        count[tid] = count.get(tid, 0) + 1
        last = op[0] == plan['clients'][tid][-1][0]
        for j, (h, (v, n)) in enumerate(handles.items()):
            if h.startswith(mine) and (last or h in touched or (j + count[tid]) % 3 == 0):
                verify(ctx, w, v, n, op, f'{op[1]} on {op[2] if len(op) > 2 else "-"} (looking at {h})')

    def do_from(tid, op):
        v, n = get(op[2])
        with Quiet(ctx, w):
            if n.k not in ('tuple', 'sum', 'union'):
                return []
            T = w.T[n.lab]
            d = dict(v.value_dict)
            how = op[4]
            keys = list(d)
            if not keys:
                return []
            if n.k != 'tuple' and sum(x is not None for x in d.values()) != 1:
                return []           # a Sum of a type and its subtype (see DESIGN)
            if n.k == 'sum':
                keys.sort(key=lambda t: t.__name__)
            k = keys[op[5] % len(keys)]
            ok = True
            if how == 'missing':
                del d[k]
                ok = False
            elif how == 'extra':
                d['zz'] = hw.Bit(0)
                ok = False
            elif how == 'wrong':
                d[k] = object()
                ok = False
            elif how == 'none':
                # drops the held variant or one that is None already
                if n.k == 'tuple':
                    d[k] = None
                    ok = False
                else:
                    ok = d[k] is None
                    d[k] = None
            elif how == 'two':
                if n.k == 'tuple':
                    return []
                if d[k] is None and len(keys) > 1:
                    d[k] = next(x for x in d.values() if x is not None)
                    ok = False
            fresh = outcome(lambda: T.from_values(dict(v.value_dict)))
            if isinstance(fresh, list):
                ok = False          # such a Sum cannot be rebuilt at all
            nn = Node(n.lab, n.k, list(n.v) if n.k != 'sum' else n.v)
        try:
            x = T.from_values(d)
        except BASE as e:
            ctx.check(not ok, 'rejects-wrongly', f'{T}.from_values raised {e!r} for its own value_dict', op=op)
            ctx.fault('from_values_rejected')
            return [op[2]]
        ctx.check(ok, 'accepts-wrongly', f'{T}.from_values accepted a dictionary ({how}) which is not one of its values', op=op)
        handles[op[3]] = (x, nn)
        ctx.probe('from_values')
        return [op[2], op[3]]

    ctx.clients(plan['clients'], do)
    ctx.nontrivial = done[0] >= 2 and (ctx.k.switches > 0 or bool(ctx.k.faults))


def plain(n):
    v = n.v
    if n.k in ('tuple', 'union'):
        v = [plain(x) if isinstance(x, Node) else x for x in v]
    elif n.k == 'sum':
        v = plain(v)
    return [n.lab, v]


def augmented(x, op, y):
    if op == '+':
        x += y
    elif op == '-':
        x -= y
    elif op == '&':
        x &= y
    elif op == '^':
        x ^= y
    elif op == '|':
        x |= y
    else:
        x <<= y
    return x


def w_size(w):
    return next(lab[1:] for lab in w.T if lab[0] == 'B' and lab[1:].isdigit())


def contains(w, n, target, seen=None):
    """Would putting n into target make a cycle?"""
    if n is target:
        return True
    return any(contains(w, x, target) for x in w.kids(n))
