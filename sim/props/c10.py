"""C10: rewriting types does not depend on hash or iteration order.

Every run has its own hash salt, so the order of every unordered field set is
part of the seed.  The model rewrites trees of nodes; the real result is taken
apart with the public queries and compared part by part, and must be the type
that a direct request for the expected tree yields.
"""
import itertools
import types as pytypes
import warnings

from .. import busy, seams
from ..typespec import Env, HarnessError, HookError
from . import c01

ID = 'C10'
hw = None


def prepare():
    global hw
    import hwtypes
    import hwtypes.adt_util
    hw = hwtypes
    warnings.simplefilter('ignore')


# ------------------------------------------------------------- generation ----
BVF = ['BitVector', 'SIntVector', 'UIntVector', 'SMTBitVector', 'SMTSIntVector', 'z3BitVector', 'AbstractBitVector',
       'NumVector']
KINDS = ['tuple', 'sum', 'sum', 'aprod', 'prod', 'union']


def gen_leaf(r, g):
    x = r.random()
    if x < .4:
        return ['bv', r.choice(BVF if r.random() < .5 else BVF[:3] + BVF[6:7]), r.choice(g['sizes'])]
    if x < .5:
        return ['fam', r.choice(BVF)]
    if x < .68:
        return ['bit', r.choice(['Bit', 'Bit', 'SMTBit', 'z3Bit', 'AbstractBit'])]
    if x < .88:
        return ['leaf', r.choice(g['leafs'])]
    if x < .95:
        return ['plain', r.choice(['int', 'str', 'bytes'])]
    return ['enum', r.choice(['E', 'F']), r.randint(1, 3)]


def gen_tree(r, g, depth, mod=.25):
    """A random type; leaves come from a small pool so that they repeat."""
    def leaf():
        t = r.choice(g['pool'])
        if g['mods'] and r.random() < mod:
            for m in r.sample(g['mods'], r.choice([1, 1, 1, 2]) if len(g['mods']) > 1 else 1):
                t = ['mod', m, t]
        return t
    if depth == 0:
        return leaf()
    kind = r.choice(KINDS)

    def sub():
        return gen_tree(r, g, depth - 1, mod) if r.random() < (.45 if depth > 1 else 0) else leaf()
    n = r.choice([1, 2, 2, 3, 3, 4])
    base = r.choice(g['bases'][kind]) if g['bases'].get(kind) and r.random() < .3 else None
    if kind in ('tuple', 'sum'):
        t = [kind, base, [sub() for _ in range(n)]]
    else:
        names = r.sample('abcd', n)
        f = [[x, sub()] for x in names]
        t = [kind, base, f] if kind == 'aprod' else [kind, base, r.choice('PQ'), f, r.random() > .15]
    if g['mods'] and r.random() < mod * .7:
        t = ['mod', r.choice(g['mods']), t]
    return t


def generate(r, tier):
    nc = r.choice([1, 1, 2, 2, 3])
    g = {'sizes': r.sample([1, 2, 8, 16], r.randint(1, 2)), 'leafs': [], 'mods': [], 'bases': {}}
    setup = []
    n = itertools.count()
    for i in range(r.randint(2, 5)):
        lab = f'L{i}'
        parents = r.sample(g['leafs'], r.randint(0, min(2, len(g['leafs'])))) if r.random() < .5 else []
        setup.append([f's{next(n)}', 'leaf', lab, parents])
        g['leafs'].append(lab)
    for i in range(r.choice([0, 1, 2, 3])):
        cached = r.random() < .15       # cached modifiers of one name would be one modifier
        setup.append([f's{next(n)}', 'mod', f'M{i}', f'M{i}' if cached else r.choice(['M', 'N', f'M{i}']), cached])
        g['mods'].append(f'M{i}')
    for kind, b in (('tuple', 'Tuple'), ('sum', 'Sum'), ('aprod', 'AnonymousProduct'), ('prod', 'Product'),
                    ('union', 'TaggedUnion')):
        if r.random() < .3:
            setup.append([f's{next(n)}', 'base', 'U' + kind, b])
            g['bases'][kind] = ['U' + kind]
    g['pool'] = [gen_leaf(r, g) for _ in range(r.randint(3, 6))]
    mod = r.choice([0, .1, .25, .5])
    fault = r.random() < .6
    hooks = any(g['bases'].values())
    clients = []
    for c in range(nc):
        ops = []
        hs = []
        for j in range(r.randint(3, 14 if nc == 1 else 8)):
            oid = f'c{c}.{j}'
            opt = {'first': r.random() < .5, 'style': r.randrange(3)}
            if fault and hooks and r.random() < .15:
                opt['arm'] = r.randrange(3)
            if fault and hooks and r.random() < .1:
                opt['reenter'] = gen_tree(r, g, 1, mod)
            x = r.random()
            h = f'h{r.randrange(4)}'
            if x < .22 or not hs:
                ops.append([oid, 'mk', h, gen_tree(r, g, r.choice([1, 2, 2, 3]), mod), {}])
                hs.append(h)
            elif x < .74:
                h = r.choice(hs)
                out = f'h{r.randrange(4)}'
                how = r.choice(['rebind', 'rebind', 'rebind', 'rbv', 'rbv', 'rkm', 'rkm', 'rtype', 'strip', 'push'])
                if how in ('rebind', 'rkm'):
                    A = r.choice(g['pool']) if r.random() < .7 else ['part', r.randrange(20)]
                    if r.random() < .15:
                        A = r.choice([['bit', 'AbstractBit'], ['fam', 'AbstractBitVector'], ['fam', 'BitVector']])
                    B = r.choice(g['pool']) if r.random() < .5 else gen_leaf(r, g) if r.random() < .6 else \
                        gen_tree(r, g, 1, 0)
                    if r.random() < .2 and A[0] != 'part':
                        # what A becomes contains A
                        B = ['mod', r.choice(g['mods']), A] if g['mods'] and r.random() < .5 and 'mod' not in A else \
                            [r.choice(['tuple', 'sum']), None, [A] + [gen_leaf(r, g)] * r.randint(0, 1)]
                        if r.random() < .7 and B[0] != 'mod':
                            # both are parts of one type
                            t = [r.choice(['tuple', 'sum', 'sum']), None, r.sample([A, B, gen_leaf(r, g)], 3)]
                            ops.append([oid + 'm', 'mk', h, t, {}])
                            hs.append(h)
                    if r.random() < .3 and B[0] != 'mod':
                        g['pool'].append(B)     # so that it occurs next to A
                    p = [A, B, r.random() < .5, r.random() < .75]
                elif how == 'rbv':
                    p = [r.choice(['AbstractBitVector', 'AbstractBitVector'] + BVF), r.choice(BVF), r.random() < .6]
                elif how == 'rtype':
                    p = [r.choice(['Bit', 'SMTBit', 'z3Bit'])]
                elif how == 'push':
                    p = [r.sample(g['mods'], r.randint(0, min(2, len(g['mods']))))] if r.random() < .3 else []
                else:
                    p = []
                ops.append([oid, 'rw', how, h, p, out, opt])
                hs.append(out)
            elif x < .82:
                ops.append([oid, 'sum', [r.choice(g['pool']) if r.random() < .5 else ['leaf', r.choice(g['leafs'])]
                                         for _ in range(r.randint(1, 4))], r.choice(g['mods'] + [None])])
            elif x < .89:
                k = r.randint(2, 4)
                ms = [r.choice('cccxy') for _ in range(k)]
                ops.append([oid, 'poly', r.choice(['BitVector', 'SIntVector', 'SMTBitVector', 'Bit']),
                            r.choice([1, 2, 8]), ms, [r.randrange(7) for _ in range(k)], r.randrange(2),
                            [r.randrange(256), r.randrange(256)]])
            elif x < .93:
                ops.append([oid, 'drop', r.choice(hs)])
            elif x < .97:
                ops.append([oid, 'collect'])
            else:
                ops.append([oid, 'work', r.randrange(3000)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'setup': setup, 'clients': clients}


# ------------------------------------------------------------------ model ----
class Undefined(Exception):
    """The documentation doesn't say what this rewriting gives."""


class Node:
    """A type and its parts.  type is None until the real type is known."""

    def __init__(self, kind, type=None, base=None, name=None, cached=True, parts=(), mod=None):
        self.kind, self.type, self.base, self.name = kind, type, base, name
        self.cached, self.parts, self.mod = cached, list(parts), mod
        if kind == 'sum':
            # equal variants are one
            self.parts = [(None, p) for p in {p.key(): p for _, p in reversed(self.parts)}.values()]

    def key(self):
        """Two nodes describe one type iff their keys are equal."""
        if self.kind == 'leaf':
            return id(self.type)
        if not self.cached:
            return 'uncached', id(self if self.type is None else self.type)
        ps = [(k, p.key()) for k, p in self.parts]
        if self.kind == 'mod':
            return 'mod', id(self.mod), ps[0][1]
        return (self.kind, id(self.base), self.name,
                frozenset(k for _, k in ps) if self.kind == 'sum' else frozenset(ps) if self.kind == 'union' else
                tuple(ps) if self.kind != 'tuple' else tuple(k for _, k in ps))

    def adt(self):
        return self.kind in ('tuple', 'sum', 'aprod', 'prod', 'union')

    def inner(self):
        n = self
        while n.kind == 'mod':
            n = n.parts[0][1]
        return n

    def with_parts(self, parts):
        """This type with other parts (itself when they are the same)."""
        if all(p.key() == q.key() for (_, p), (_, q) in zip(parts, self.parts, strict=True)):
            return self
        return Node(self.kind, None, self.base, self.name, self.cached, parts, self.mod)

    def map(self, f):
        return self.with_parts([(k, f(p)) for k, p in self.parts])

    def sub(self, T):
        """Is it a subtype of the type T?"""
        return self.type is not None and issubclass(self.type, T)

    def walk(self):
        yield self
        for _, p in self.parts:
            yield from p.walk()

    def __str__(self):
        if self.kind == 'leaf':
            return str(self.type)
        if self.kind == 'mod':
            return f'{self.mod.__name__}({self.parts[0][1]})'
        return f'{self.name or self.base}[' + ', '.join(f'{k}: {p}' for k, p in self.parts) + ']'


def request(n):
    """Ask for the type n describes (n is completed)."""
    if n.type is None:
        ts = [(k, request(p)) for k, p in n.parts]
        if n.kind == 'mod':
            n.type = n.mod(ts[0][1])
        elif n.kind in ('tuple', 'sum'):
            n.type = n.base[tuple(t for _, t in ts)]
        elif n.kind == 'aprod':
            n.type = n.base[dict(ts)]
        else:
            n.type = n.base.from_fields(n.name, dict(ts), cache=n.cached)
    return n.type


def fixed(n):
    """Does n describe one shared type?"""
    return n.type is not None or n.cached and all(fixed(p) for _, p in n.parts)


def mods_of(n):
    out = []
    while n.kind == 'mod':
        out.append(n.mod)
        n = n.parts[0][1]
    return out


def wrap(n, mods):
    """mods: innermost first."""
    have = mods_of(n)
    for m in mods:
        if m in have:
            raise Undefined
        n = Node('mod', None, parts=[(None, n)], mod=m)
    return n


def remod(n, inner):
    """n with its (unmodified) inside replaced."""
    if inner is n.inner():
        return n
    return wrap(inner, mods_of(n)[::-1])


def lost(n, changed):
    """A modified algebraic type of which the modifier isn't kept."""
    if changed is not n:
        raise Undefined
    return n


def m_rebind(n, A, B, sub, rec):
    if n.kind == 'mod':
        i = n.inner()
        return lost(n, n if m_rebind(i, A, B, sub, rec) is i else None)

    def f(p):
        if p.type is not None and p.type is A or sub and p.sub(A):
            return B
        if rec and p.inner().adt():
            return m_rebind(p, A, B, sub, True)
        return p
    return n.map(f) if n.adt() else n


def styled(opt, extra):
    """A call with the arguments (name, value, default) after the positional ones: all of them, or only those which differ
    from their default, by position or by keyword."""
    extra = list(extra)
    if opt.get('style', 0) == 0:
        return lambda f, *a: f(*a, *(v for _, v, _ in extra))
    if opt['style'] == 1:
        while extra and extra[-1][1] == extra[-1][2]:
            extra.pop()
        return lambda f, *a: f(*a, *(v for _, v, _ in extra))
    kw = {k: v for k, v, d in extra if v != d}
    return lambda f, *a: f(*a, **kw)


def leaf(t):
    return Node('leaf', t)


def m_rbv(n, f0, f1, keep):
    if keep and n.kind == 'mod':
        return remod(n, m_rbv(n.inner(), f0, f1, True))
    if n.sub(f0):
        return leaf(f1[n.type.size] if n.type.is_sized else f1)
    if n.kind == 'mod':
        i = n.inner()
        return lost(n, n if m_rbv(i, f0, f1, keep) is i else None)
    return n.map(lambda p: m_rbv(p, f0, f1, keep)) if n.adt() else n


def m_rkm(n, A, B):
    if n.kind == 'mod':
        return remod(n, m_rkm(n.inner(), A, B))
    if n.sub(A):
        return B
    return n.map(lambda p: m_rkm(p, A, B)) if n.adt() else n


def m_rtype(n, fam):
    if n.kind == 'mod':
        return remod(n, m_rtype(n.inner(), fam))
    if n.sub(hw.AbstractBit):
        return leaf(fam.Bit)
    x = m_rbv(n, hw.AbstractBitVector, fam.BitVector, False)
    return m_rebind(x, hw.AbstractBit, leaf(fam.Bit), True, True) if n.adt() else x


def fresh(n, parts):
    """Rebuilt by a request: cached, and only its parts are kept."""
    return Node(n.kind, None, n.base, n.name, True, parts)


def m_strip(n):
    n = n.inner()
    return fresh(n, [(k, m_strip(p)) for k, p in n.parts]) if n.adt() else n


class Duplicate(Exception):
    """A modifier would be applied twice: TypeError."""


def m_push(n, mods):
    mods = mods_of(n)[::-1] + mods
    n = n.inner()
    if n.adt():
        return fresh(n, [(k, m_push(p, mods)) for k, p in n.parts])
    if len(set(mods)) != len(mods):
        raise Duplicate
    return wrap(n, mods)


# -------------------------------------------------------------------- run ----
def run(ctx, plan):
    env = Env(ctx, hw)
    handles = {}
    m = hw.modifiers
    u = hw.adt_util
    done = [0]
    leafs = {}
    FAM = dict(env.families)
    BIT = dict(env.bits, AbstractBit=hw.AbstractBit)

    def build(spec):
        k = spec[0]
        if k == 'plain':
            return leaf(env.plain[spec[1]])
        if k == 'bit':
            return leaf(BIT[spec[1]])
        if k == 'fam':
            return leaf(FAM[spec[1]])
        if k == 'bv':
            return leaf(FAM[spec[1]][spec[2]])
        if k == 'leaf':
            return leaf(leafs[spec[1]])
        if k == 'enum':
            return leaf(hw.Enum.from_fields(spec[1], {f'e{i}': i for i in range(spec[2])}))
        if k == 'mod':
            p = build(spec[2])
            n = Node('mod', None, parts=[(None, p)], mod=env.mods[spec[1]][1])
        else:
            base = env._tc(['u', spec[1]] if spec[1] and spec[1] in env.user else None,
                           {'tuple': 'Tuple', 'sum': 'Sum', 'aprod': 'AnonymousProduct', 'prod': 'Product',
                            'union': 'TaggedUnion'}[k])
            if k in ('tuple', 'sum'):
                n = Node(k, None, base, parts=[(i, build(s)) for i, s in enumerate(spec[2])])
            elif k == 'aprod':
                n = Node(k, None, base, parts=[(f, build(s)) for f, s in spec[2]])
            else:
                n = Node(k, None, base, spec[2], spec[4], [(f, build(s)) for f, s in spec[3]])
        request(n)
        return n

    env.issue = lambda view, spec: build(spec).type

    def differs(t, n):
        """Why t isn't the type n describes (None: it is)."""
        if n.kind == 'leaf':
            return None if t is n.type else f'{t} instead of {n.type}'
        if n.kind == 'mod':
            if not m.is_modified(t):
                return f'{t} is not modified, expected {n}'
            if m.get_modifier(t) is not n.mod:
                return f'{t} has an other modifier than {n}'
            return differs(m.get_unmodified(t), n.parts[0][1])
        if m.is_modified(t):
            return f'{t} is modified, expected {n}'
        if getattr(t, 'unbound_t', None) is not n.base:
            return f'{t} is not a {n.base}'
        if n.kind in ('prod', 'union'):
            if t.__name__ != n.name:
                return f'{t} is not called {n.name}'
            if t.is_cached is not n.cached:
                return f'is_cached of {t} is {t.is_cached}'
        fd = t.field_dict
        if n.kind == 'sum':
            ts = list(t.fields)
            if len(ts) != len(n.parts) or set(fd) != set(ts) or any(fd[x] is not x for x in ts):
                return f'the variants are {ts}, expected {n}'
            if not assign(ts, [p for _, p in n.parts]):
                return f'the variants are {ts}, expected {n}'
            return None
        names = list(fd)
        want = [k for k, _ in n.parts]
        if names != want and (n.kind != 'union' or sorted(names) != sorted(want)):
            return f'the fields are called {names}, expected {want}'
        for k, p in n.parts:
            d = differs(fd[k], p)
            if d:
                return f'field {k}: {d}'
        if n.kind != 'union' and list(t.fields) != [fd[k] for k in names]:
            return f'fields is {t.fields}'
        if n.kind == 'union' and set(t.fields) != set(fd.values()):
            return f'fields is {t.fields}'
        return None

    def assign(ts, ps):
        if not ts:
            return True
        return any(differs(ts[0], p) is None and assign(ts[1:], ps[:i] + ps[i + 1:]) for i, p in enumerate(ps))

    def expect(t, n, what, op):
        with ctx.atomic():
            d = differs(t, n)
            ctx.check(d is None, 'wrong-type', f'{what} gives {t}: {d}', op=op)
            if n.type is not None:
                ctx.check(t is n.type, 'not-shared', f'{what} gives a second type {t}', op=op)

    def learn(n, t):
        """Complete n (of which t was checked to be the type)."""
        n.type = t
        if n.kind == 'mod':
            learn(n.parts[0][1], m.get_unmodified(t))
        elif n.kind == 'sum':
            left = list(t.fields)
            for _, p in sorted(n.parts, key=lambda p: p[1].type is None):
                x = next(x for x in left if p.type is x or p.type is None and differs(x, p) is None)
                left.remove(x)
                if p.type is None:
                    learn(p, x)
        elif n.kind != 'leaf':
            for k, p in n.parts:
                if p.type is None:
                    learn(p, t.field_dict[k])

    def try_(tid, opt, fn):
        """(True, fn()) or (False, None) when the armed hook failed it."""
        if 'arm' in opt:
            env.arm[tid] = opt['arm']
        if 'reenter' in opt:
            env.hook_req[tid] = opt['reenter']
        try:
            return True, fn()
        except HookError:
            if 'arm' not in opt:
                raise
            ctx.probe('request_failed')
            return False, None
        finally:
            env.arm.pop(tid, None)
            env.hook_req.pop(tid, None)

    def mk(tid, op):
        n = build(op[3])
        expect(n.type, n, 'the request', op)
        handles[tid, op[2]] = n

    def rewrite(tid, op):
        _, _, how, h, p, out, opt = op
        n = handles.get((tid, h))
        if n is None:
            return
        if how in ('rebind', 'rkm'):
            if p[0][0] == 'part':
                parts = list(n.walk())
                A = parts[p[0][1] % len(parts)].type
            else:
                A = build(p[0]).type
            B = build(p[1])
        try:
            if how == 'rebind':
                if not n.inner().adt():
                    return
                want = m_rebind(n, A, B, p[2], p[3])
                call = styled(opt, [('rebind_sub_types', p[2], False), ('rebind_recursive', p[3], True)])
                fn = lambda: call(n.type.rebind, A, B.type)
                what = f'{n}.rebind({A}, {B}, {p[2]}, {p[3]})'
            elif how == 'rbv':
                f0, f1 = FAM[p[0]], FAM[p[1]]
                want = m_rbv(n, f0, f1, p[2])
                call = styled(opt, [('keep_modifiers', p[2], False)])
                fn = lambda: call(u.rebind_bitvector, n.type, f0, f1)
                what = f'rebind_bitvector({n}, {f0}, {f1}, {p[2]})'
            elif how == 'rkm':
                want = m_rkm(n, A, B)
                fn = lambda: u.rebind_keep_modifiers(n.type, A, B.type)
                what = f'rebind_keep_modifiers({n}, {A}, {B})'
            elif how == 'rtype':
                fam = BIT[p[0]].get_family()
                want = m_rtype(n, fam)
                fn = lambda: u.rebind_type(n.type, fam)
                what = f'rebind_type({n}, {p[0]})'
            elif how == 'strip':
                want = m_strip(n)
                fn = lambda: m.strip_modifiers(n.type)
                what = f'strip_modifiers({n})'
            else:
                ms = [env.mods[x][1] for x in p[0]] if p else []
                fn = (lambda: m.push_modifiers(n.type, list(ms))) if p else (lambda: m.push_modifiers(n.type))
                what = f'push_modifiers({n}, {ms})'
                want = m_push(n, ms)
        except Undefined:
            ctx.probe('undefined')
            return
        except Duplicate:
            try:
                t = fn()
            except TypeError:
                ctx.fault('request_rejected')
            else:
                ctx.violation('accepted', f'{what} gives {t} although it applies a modifier twice', op=op)
            return
        if opt['first'] and fixed(want):
            request(want)
        ok, t = try_(tid, opt, fn)
        if not ok:
            t = fn()            # the failure leaves nothing behind
        expect(t, want, what, op)
        if fixed(want) and want.type is None:
            request(want)
            expect(t, want, what, op)
        with ctx.atomic():
            if want.type is None:
                learn(want, t)
        t2 = fn()
        if fixed(want) and all(x.cached for x in want.walk()):
            ctx.check(t2 is t, 'not-repeatable', f'{what} gives an other type the second time', op=op)
        with ctx.atomic():
            d = differs(n.type, n)
            ctx.check(d is None, 'input-changed', f'{what} changed its input: {d}', op=op)
        if sum(1 for _ in want.walk()) < 60:
            handles[tid, out] = want
        ctx.note(op[0], how, str(want))
        ctx.probe('rewritten' if want is not n else 'unchanged')
        done[0] += 1

    def value_of(n):
        """A value of exactly the type n (None: it has none here)."""
        if n.kind == 'mod' and n.inner().kind != 'leaf':
            return None
        t = n.type
        if not n.inner().kind == 'leaf':
            return None
        if issubclass(t, hw.Enum):
            return None if n.kind == 'mod' else t.e0
        if issubclass(t, hw.AbstractBitVector):
            if issubclass(t, (hw.BitVector, hw.SMTBitVector, hw.z3BitVector)) and t.is_sized:
                return t(1)
            return None
        if issubclass(t, hw.AbstractBit):
            return t(1) if t is not hw.AbstractBit and n.kind != 'mod' else None
        return t()

    def do_sum(tid, op):
        parts = [build(s) for s in op[2]]
        if op[3] is not None:
            md = env.mods[op[3]][1]
            x = Node('mod', None, parts=[(None, parts[0])], mod=md)
            if not issubclass(parts[0].type, hw.Enum):
                request(x)
                parts.append(x)
        n = Node('sum', None, hw.Sum, parts=[(None, p) for p in parts])
        S = request(n)
        expect(S, n, 'the request', op)
        vals = [(p, value_of(p)) for _, p in n.parts]
        vals = [(p, v) for p, v in vals if v is not None]
        with ctx.atomic():
            for p, v in vals:
                ctx.check(type(v) is p.type, 'harness-value', f'{v} is not a {p}')
        fields = [p.type for _, p in n.parts]

        def holds(s, v, what):
            for T in fields:
                M = s[T]
                ctx.check(M.match is isinstance(v, T), 'sum', f'{what}: match of {T} is {M.match}', op=op)
                if M.match:
                    ctx.check(M.value is v, 'sum', f'{what}: the value of {T} is {M.value}', op=op)
                else:
                    try:
                        M.value
                    except TypeError:
                        continue
                    ctx.violation('sum', f'{what}: {T} is unmatched but has a value', op=op)
            d = s.value_dict
            ctx.check(set(d) == set(fields) and all((d[T] is v) is isinstance(v, T) for T in fields),
                      'sum', f'{what}: value_dict is {d}', op=op)
            if sum(isinstance(v, T) for T in fields) == 1:
                ctx.check(S.from_values(d)[type(v)].value is v, 'sum', f'{what}: from_values', op=op)
        for p, v in vals:
            s = S(v)
            holds(s, v, f'{n}({v})')
            cur = v
            for T in fields:
                for q, w in vals:
                    try:
                        s[T] = w
                        ok = True
                    except TypeError:
                        ok = False
                    ctx.check(ok is isinstance(w, T), 'sum', f'{n}: storing {w} as {T} is '
                              f'{"accepted" if ok else "rejected"}', op=op)
                    if ok:
                        cur = w
            holds(s, cur, f'{n} after writes')
        for bad in (object(), 3.5):
            try:
                S(bad)
            except TypeError:
                ctx.fault('request_rejected')
            else:
                ctx.violation('sum', f'{n} accepts {bad}', op=op)
        ctx.probe('sums')
        done[0] += 1

    def do_poly(tid, op):
        _, _, fam, w, ms, who, sel, vals = op
        base = BIT[fam] if fam == 'Bit' else FAM[fam]
        F = base.get_family()
        mix = []
        for i, (c, x) in enumerate(zip(ms, who)):
            ns = {'__module__': __name__}
            parent = base
            if c == 'c':
                def f(self, i=i, cell=[]):
                    up = getattr(super(mix[i][1], self), 'chain', None)
                    return (i,) + (up() if up is not None else ())
                ns['chain'] = f
                if x == 0 and i and mix[-1][0] == 'c':
                    parent = mix[-1][1]     # not a direct common base
            mix.append((c, pytypes.new_class(f'M{i}', (parent,), {}, lambda d, ns=ns: d.update(ns))))
        # the most derived first, so that the order of the bases is consistent
        top = [M for M in mix if not any(M[1] is not N[1] and issubclass(N[1], M[1]) for N in mix)]

        def cls(name, skip):
            bs = tuple(M for c, M in top if c != skip) or (base,)
            return pytypes.new_class(name, bs, {}, lambda d: d.update(__module__=__name__))
        X, Y = cls('X', 'y'), cls('Y', 'x')
        if fam == 'Bit':
            a, b = X(vals[0] & 1), Y(vals[1] & 1)
        else:
            a, b = X[w](vals[0] % (1 << w)), Y[w](vals[1] % (1 << w))
        with ctx.atomic():
            order = [M for M in X.__mro__ if any(M is N for _, N in mix) and issubclass(Y, M)]
            yorder = [M for M in Y.__mro__ if any(M is N for _, N in mix) and issubclass(X, M)]
            if order != yorder:
                raise HarnessError('inconsistent order')
        v = F.Bit(sel).ite(a, b)
        T = type(v)
        with ctx.atomic():
            got = [M for M in T.__mro__ if any(M is N for _, N in mix)]
            ctx.check(got == order, 'mixed', f'the choice between {a!r} and {b!r} has bases {got}, not {order}', op=op)
            if order:
                chain = a.chain()
                if chain == b.chain():
                    ctx.check(v.chain() == chain, 'mixed', f'a method of the choice gives {v.chain()}, not {chain}', op=op)
            if fam in ('Bit', 'BitVector', 'SIntVector'):
                ctx.check(int(v) == int(a if sel else b), 'mixed', f'the choice between {a!r} and {b!r} is {v!r}', op=op)
        ctx.probe('choices')
        done[0] += 1

    def do(tid, op):
        k = op[1]
        if k == 'mk':
            mk(tid, op)
        elif k == 'rw':
            rewrite(tid, op)
        elif k == 'sum':
            do_sum(tid, op)
        elif k == 'poly':
            do_poly(tid, op)
        elif k == 'drop':
            handles.pop((tid, op[2]), None)
        elif k == 'collect':
            ctx.collect()
        elif k == 'work':
            busy.busy(hw, op[2])
        else:
            raise HarnessError(op)

    for op in plan['setup']:
        if op[1] == 'leaf':
            ps = [leafs[x] for x in op[3]]
            ps = [x for i, x in enumerate(ps) if not any(y is not x and issubclass(y, x) for y in ps)]
            try:
                leafs[op[2]] = seams.LeafMeta(op[2], tuple(ps), {'__module__': __name__})
            except TypeError:       # no consistent order of bases
                leafs[op[2]] = seams.LeafMeta(op[2], tuple(ps[:1]), {'__module__': __name__})
        elif op[1] == 'mod':
            env.new_mod(op[2], op[3], op[4])
        else:
            env.new_user(op[2], op[3], op[2])
    ctx.clients(plan['clients'], do)
    ctx.nontrivial = done[0] >= 2 and (ctx.k.switches > 0 or ctx.k.gcs > 0 or bool(ctx.k.faults) or done[0] > 3)
