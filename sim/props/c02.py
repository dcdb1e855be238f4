"""C02: the outcome of a type request does not depend on history.

Oracle: every request of the plan is first issued alone in a pristine fork of
the process; whatever it gave there (the kind of error, or a description of the
type) it must give in every state the simulated history produces.
"""
import inspect
import json
import os
import types as pytypes

from .. import typespec as ts
from ..typespec import Env, HarnessError, HookError, Missing
from . import c01

ID = 'C02'
hw = None

METHODS = {
    's0': lambda self=None: 0,
    's1': lambda self=None: 1,
}


def prepare():
    global hw
    import hwtypes
    hw = hwtypes
    # plain base classes / metaclasses a definition may use
    global METAS

    class UMeta(type(hw.TaggedUnion)):
        pass

    class EMeta(type(hw.Enum)):
        pass
    METAS = {'union': UMeta, 'enum': EMeta}


# ------------------------------------------------------------ raw requests ----
# literals: JSON scalars; ['f', x] float; ['t', ...] tuple; ['d', [k, v]...] dict;
# ['ty', spec] a type; ['mode', m]; ['obj'] a bare object; ['ell'] Ellipsis
BAD = [1, 0, -1, -2, 3, True, False, None, 'x', ['f', 8.0], ['f', 1.5], ['obj'], ['ell'], ['t'], ['intlike', 3],
       ['big', 70], ['sl', 0, 2]]


class IntLike:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v

    def __index__(self):
        return self.v

    def __hash__(self):
        return hash(self.v)

    def __eq__(self, o):
        return self.v == o


class IntSub(int):
    pass


def lit(env, x):
    if not isinstance(x, list):
        return x
    k = x[0]
    if k == 'f':
        return float(x[1])
    if k == 't':
        return tuple(lit(env, y) for y in x[1:])
    if k == 'd':
        return {lit(env, a): lit(env, b) for a, b in x[1:]}
    if k == 'l':
        return [lit(env, y) for y in x[1:]]
    if k == 'ty':
        return build(env, x[1])
    if k == 'mode':
        return getattr(hw.fp_vector_abc.RoundingMode, x[1])
    if k == 'obj':
        return object()
    if k == 'ell':
        return Ellipsis
    if k == 'intlike':
        return IntLike(x[1])
    if k == 'intsub':
        return IntSub(x[1])
    if k == 'big':
        return 1 << x[1]
    if k == 'sl':
        return slice(x[1], x[2])
    if k == 'm':
        return METHODS[x[1]]
    if k == 'p':
        return ts.PROPS[x[1]]
    if k == 'fresh':
        v = x[1]
        return lambda self=None: v
    raise HarnessError(x)


def build(env, spec):
    """Issue the request; typespec requests plus the irregular ones."""
    k = spec[0]
    if k == 'raw':                       # base[literal]
        base = spec[1]
        b = env.base(base) if isinstance(base, str) else build(env, base)
        x = lit(env, spec[2])
        return ts.theirs(lambda d: b[d], x) if isinstance(x, dict) else b[x]
    if k == 'def':                       # class definition with an arbitrary body
        kind, base, name, body, opts = spec[1:6]
        if base is None:
            bases = (env.base({'prod': 'Product', 'union': 'TaggedUnion', 'enum': 'Enum', 'tuple': 'Tuple',
                               'sum': 'Sum', 'aprod': 'AnonymousProduct'}[kind]),)
        else:
            bases = tuple(build(env, b) for b in base)
        ns = {'__module__': opts.get('module', 'mod'), '__qualname__': name}
        ns.update((n, lit(env, v)) for n, v in body)
        kw = {}
        if 'cache' in opts:
            kw['cache'] = lit(env, opts['cache'])
        if opts.get('meta'):
            kw['metaclass'] = METAS[kind]
        for n, v in opts.get('kw', ()):
            kw[n] = v
        return pytypes.new_class(name, bases, kw, lambda d: d.update(ns))
    if k == 'ff':                        # from_fields with arbitrary arguments
        base, name, fields, opts = spec[1:5]
        kw = {n: lit(env, v) for n, v in opts}
        b = env.base(base) if isinstance(base, str) else build(env, base)
        return ts.theirs(lambda d: b.from_fields(name, d, **kw), {n: lit(env, v) for n, v in fields})
    if k == 'sub':                       # a class deriving from requested types
        bases, name, attrs = spec[1:4]
        bases = tuple(build(env, b) for b in bases)
        ns = {'__module__': 'mod', '__qualname__': name}
        ns.update((n, lit(env, v)) for n, v in attrs)
        return pytypes.new_class(name, bases, {}, lambda d: d.update(ns))
    if k == 'new':                       # modifiers.new
        base, arg, kw = spec[1:4]
        b = env.base(base) if isinstance(base, str) else build(env, base)
        return hw.modifiers.new(b, *(lit(env, x) for x in arg), **kw)
    return env.build(spec)


# ------------------------------------------------------------- descriptions ----
PROBES = ('k', 'j', 'meth', '__str__', '__len__', '__call__', '__hash__')


def relatives(t, idx):
    """Is t, a bound type, a subtype of what the classes above its own give for
    the same index?"""
    try:
        above = t.unbound_t.__mro__[1:]
    except AttributeError:
        return 'no unbound'
    out = []
    for c in above:
        if hasattr(type(c), '__getitem__') and c.__module__ != 'typing':
            try:
                out.append(issubclass(t, c[idx]))
            except (TypeError, AttributeError) as e:
                out.append(type(e).__name__)
    return out


def describe(env, t, depth=0):
    """A history-independent description of what the caller can see of t."""
    if not isinstance(t, type):
        return ['value', type(t).__name__, repr(t) if isinstance(t, (int, str, bool)) else '']
    for lab, (s, c) in env.user.items():
        if c is t:
            return ['user', lab]
    for table in (env.families, env.bits, env.fps, env.plain):
        for n, c in table.items():
            if c is t:
                return ['base', n]
    if depth > 6:
        return ['deep']
    out = [type(t).__name__]
    M = hw.modifiers
    if M.is_modified(t):
        m = M.get_modifier(t)
        lab = sorted(l for l, (s, c) in env.mods.items() if c is m)
        return ['mod', lab, m.__name__, describe(env, M.get_unmodified(t), depth + 1)]
    if isinstance(t, hw.bit_vector_abc.BitVectorMeta):
        out += [t.__name__, t.size, t.is_sized, type(t.size).__name__]
        try:
            out.append(describe(env, t.unsized_t, depth + 1))
        except AttributeError:
            out.append('no unsized')
        if t.is_sized and t.size < 4096:
            out.append(sorted(n for n, f in env.families.items() if issubclass(t, f)))
            out.append(sorted(n for n, f in env.families.items() if issubclass(t, f[t.size])))
            out.append(sorted(l for l, (s, c) in env.user.items() if isinstance(c, type(hw.BitVector))
                              and issubclass(t, c[t.size])))
    elif isinstance(t, hw.fp_vector_abc.AbstractFPVectorMeta):
        out += [t.__name__, t.is_bound]
        if t.is_bound:
            out += [repr(t.binding), t.size, t.exponent_size, t.mantissa_size, str(t.mode), t.ieee_compliance,
                    type(t.ieee_compliance).__name__, type(t.exponent_size).__name__,
                    sorted(n for n, f in env.fps.items() if issubclass(t, f)), relatives(t, t.binding)]
    elif hw.adt.is_adt_type(t):
        out += [t.is_bound, t.is_cached, bool(t.is_cached)]
        ordered = not isinstance(t, (type(hw.Sum), type(hw.Enum)))
        if isinstance(t, (type(hw.Product), type(hw.TaggedUnion), type(hw.Enum))):
            out.append(t.__name__)
        if t.is_bound:
            fs = []
            try:
                fd = t.field_dict
            except AttributeError:
                return out + ['no field_dict']
            for n, f in fd.items():
                if isinstance(t, type(hw.Enum)):
                    fs.append([n, type(f._value_).__name__, repr(f._value_)
                               if isinstance(f._value_, int) else '', type(f) is t])
                elif isinstance(n, type):
                    fs.append(describe(env, f, depth + 1))
                else:
                    fs.append([str(n) if isinstance(n, (str, int)) else type(n).__name__, describe(env, f, depth + 1)])
            out.append(fs if ordered else sorted(fs, key=json.dumps))
            try:
                out.append(describe(env, t.unbound_t, depth + 1) if t.unbound_t is not t else 'self')
            except AttributeError:
                out.append('no unbound')
        for n in PROBES:
            a = inspect.getattr_static(t, n, None)
            if inspect.isfunction(a) and a.__module__ == __name__:
                out.append([n, 'call', a(None)])
            elif isinstance(a, (int, str, bool, float)) and not inspect.isfunction(a):
                out.append([n, type(a).__name__, repr(a)])
            elif a is None:
                out.append([n, None])
            elif a in ts.PROPS.values():
                out.append([n, 'prop', sorted(l for l, p in ts.PROPS.items() if p is a)])
        out.append(getattr(t, '_kw_', None))
        kinds = ('Tuple', 'Sum', 'Product', 'TaggedUnion', 'Enum', 'AnonymousProduct')
        out.append([n for n in kinds if issubclass(t, env.base(n))])
        out.append(sorted(l for l, (s, c) in env.user.items() if issubclass(t, c)))
        if isinstance(t, type(hw.adt.AnonymousProduct)) and t.is_bound:
            out.append(issubclass(t, hw.Tuple[tuple(t.fields)]))
            out.append(issubclass(t, hw.adt.AnonymousProduct[dict(t.field_dict)]))
            out.append([p.name for p in inspect.signature(t.__init__).parameters.values()])
        if isinstance(t, (type(hw.Sum), type(hw.Tuple))) and t.is_bound:
            aprod = isinstance(t, type(hw.adt.AnonymousProduct))
            out.append(relatives(t, dict(t.field_dict) if aprod else tuple(t.fields)))
    else:
        out.append(t.__name__)
    return out


def outcome(env, spec, ctx=None):
    """['ok', description] or ['err', type of the error]; also the type."""
    try:
        t = build(env, spec)
    except (HookError, Missing, HarnessError):
        raise
    except Exception as e:
        from ..kernel import Violation
        if isinstance(e, Violation):
            raise
        return ['err', type(e).__name__], None
    return ['ok', describe(env, t)], t


# --------------------------------------------------------------- generation ----
def gen_lit_field(r, g, kind):
    if kind == 'enum':
        return r.choice([0, 1, 2, True, False, ['f', 1.0], 'x', 3, ['intsub', 1]])
    x = r.random()
    if x < .8:
        return ['ty', ts.gen_leaf(r, g)]
    if x < .9:
        return ['ty', ts.gen_spec(r, g, 1)]
    return r.choice([1, True, 'x', ['f', 1.0], ['m', 's0']])


def gen_sub(r, g):
    """A class of the caller's that derives from parameterised types."""
    if r.random() < .3:
        x = r.random()
        if x < .5:
            base = r.choice(['BitVector', 'SMTBitVector', 'FPVector', 'SMTFPVector', 'Tuple', 'Sum', 'AnonymousProduct'])
            arg = {'F': ['t', r.choice([2, 3, 8]), r.choice([3, 7]), ['mode', r.choice(ts.MODES[:2])],
                         r.random() < .5]}.get(base[0] if base[0] != 'S' else base[3:4])
            if arg is None:
                n = r.choice(g['sizes'])
                arg = n if 'Vector' in base else ['t', ['ty', ts.gen_leaf(r, g)]]
            arg = [arg]
        else:
            base, arg = gen_part(r, g), []
        kw = {'name': r.choice('AB')} if r.random() < .7 else {}
        if r.random() < .3:
            kw['module'] = 'm'
        return ['new', base, arg, kw]
    parts = [gen_part(r, g)]
    if r.random() < .25:
        parts.append(gen_part(r, g, parts[0]))
    attrs = []
    if r.random() < .15:
        attrs.append([r.choice(['_info_', '_ctx_', '_value_', '_fields_', 'k', '_syntax_']), r.choice([1, 'x', None])])
    return ['sub', parts, r.choice(['F', 'F', 'F', 'G']), attrs]


def gen_part(r, g, near=None):
    if near is not None and r.random() < .6:
        return ts.variant(r, g, near)
    x = r.random()
    return ts.gen_fp(r, g) if x < .4 else ts.gen_bv(r, g) if x < .6 else ts.gen_spec(r, g, 1)


def gen_irregular(r, g):
    x = r.random()
    if r.random() < .15:
        return gen_sub(r, g)
    if x < .25:                # sizes of bit-vectors
        base = r.choice(['BitVector', 'SIntVector', 'UIntVector', 'SMTBitVector', 'z3BitVector', 'AbstractBitVector']
                        + g['bvs'])
        base = ['user', base] if base in g['bvs'] else base
        n = r.choice(g['sizes'])
        return ['raw', base, r.choice([n, n, ['f', float(n)], ['intlike', n], ['intsub', n], bool(n & 1), -n - 1,
                                       str(n), None, ['t', n], ['t', n, n]])]
    if x < .32:                # binding again
        return ['raw', ts.gen_bv(r, g)[:3], r.choice(g['sizes'])]
    if x < .5:                 # float formats
        base = r.choice(['FPVector', 'FPVector', 'SMTFPVector', 'AbstractFPVector'])
        idx = [r.choice([2, 3, 8, ['f', 8.0], True, 0, -1, 1]), r.choice([2, 3, 7, ['f', 7.0], True, 0]),
               ['mode', r.choice(ts.MODES[:2])] if r.random() < .85 else 1,
               r.choice([True, False, True, False, 1, 0, None])]
        if r.random() < .5:
            idx = [r.choice([2, 3]), r.choice([2, 3]), ['mode', 'RNE'], r.choice([True, False, 1, 0])]
        if r.random() < .1:
            idx.pop()
        return ['raw', base, ['t'] + idx]
    if x < .62:                # fields that are no types, wrong containers
        base = r.choice(['Tuple', 'Sum', 'AnonymousProduct', 'Product', 'TaggedUnion', 'Enum'])
        fs = [gen_lit_field(r, g, 'prod') for _ in range(r.randint(0, 3))]
        if base == 'AnonymousProduct' and r.random() < .8:
            names = r.sample(['a', 'b', 'c', 'fields', '_value_', 1, 'for'], len(fs))
            return ['raw', base, ['d'] + [[n, f] for n, f in zip(names, fs)]]
        return ['raw', base, r.choice([['t'] + fs, ['l'] + fs, fs[0] if fs else ['t'],
                                       ['d'] + [[str(i), f] for i, f in enumerate(fs)]])]
    if x < .9:                 # class definitions
        kind = r.choice(['prod', 'prod', 'union', 'enum', 'enum'])
        n = r.randint(0 if r.random() < .1 else 1, 3)
        body = [[nm, gen_lit_field(r, g, kind)] for nm in r.sample(['a', 'b', 'c'], n)]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            nm = r.choice(PROBES[:-1] + ('k', 'meth', '__doc__'))
            body.append([nm, r.choice([0, 1, True, ['f', 1.0], 'x', ['m', 's0'], ['m', 's1'], ['fresh', 2],
                                       ['fresh', 3], ['l', 1], None])])
        if r.random() < .08:
            body.append([r.choice(['fields', '_value_', 'enumerate', '_x_']), gen_lit_field(r, g, kind)])
        opts = {}
        if r.random() < .25:
            opts['cache'] = r.choice([True, False, 1, 0, None])
        if r.random() < .12 and kind in ('union', 'enum'):
            opts['meta'] = True
        if r.random() < .08:
            opts['kw'] = [['x', r.choice([1, True])]]
        base = None
        y = r.random()
        if y < .15:
            base = [ts.gen_spec(r, dict(g, kinds=[kind, kind, 'tuple', 'sum']), 1)]
            if r.random() < .6:
                body = [b for b in body if b[0] not in 'abc']
        elif y < .25:
            grp = {'prod': 'prods', 'union': 'unions', 'enum': 'enums'}[kind]
            if g.get(grp):
                base = [['user', r.choice(g[grp])]]
        return ['def', kind, base, r.choice(['P', 'P', 'Q', 'E', 'MP', 'NP']), body, opts]
    kind = r.choice(['prod', 'union', 'enum'])
    base = {'prod': 'Product', 'union': 'TaggedUnion', 'enum': 'Enum'}[kind]
    n = r.randint(0 if r.random() < .1 else 1, 3)
    body = [[nm, gen_lit_field(r, g, kind)] for nm in r.sample(['a', 'b', 'c', 'fields', '_tag_'], n)]
    opts = [['cache', r.choice([True, False, 1, 0, None])]] if r.random() < .4 else []
    if r.random() < .1:
        base = ts.gen_spec(r, dict(g, kinds=[kind]), 1)
    return ['ff', base, r.choice(['P', 'Q']), body, opts]


def perturb(r, g, spec):
    """An irregular request close to (often hash-equal with) spec."""
    s = json.loads(json.dumps(spec))
    if s[0] == 'raw' and isinstance(s[2], list) and s[2][:1] == ['t'] and len(s[2]) > 1:
        i = r.randrange(1, len(s[2]))
        s[2][i] = near(r, s[2][i])
    elif s[0] == 'raw':
        s[2] = near(r, s[2])
    elif s[0] == 'def':
        x = r.random()
        body = s[4]
        if body and x < .6:
            i = r.randrange(len(body))
            body[i][1] = near(r, body[i][1])
        elif x < .7:
            r.shuffle(body)
        elif x < .8:
            s[5] = {} if s[5] else {'cache': r.choice([True, 1, False])}
        elif x < .9 and s[1] in ('union', 'enum'):
            s[5]['meta'] = not s[5].get('meta')
        elif body:
            body.pop(r.randrange(len(body)))
    elif s[0] == 'sub':
        i = r.randrange(len(s[1]))
        s[1][i] = ts.variant(r, g, s[1][i])
    elif s[0] == 'new' and not isinstance(s[1], str):
        s[1] = ts.variant(r, g, s[1])
    elif s[0] == 'new' and s[2]:
        a = s[2][0]
        if isinstance(a, list) and a[0] == 't' and len(a) > 1:
            i = r.randrange(1, len(a))
            a[i] = near(r, a[i])
        else:
            s[2][0] = near(r, a)
    elif s[0] == 'ff':
        if s[3]:
            i = r.randrange(len(s[3]))
            s[3][i][1] = near(r, s[3][i][1])
    elif s[0] == 'bv' and isinstance(s[1], str):
        return ['raw', s[1], near(r, s[2])]
    elif s[0] == 'fp' and isinstance(s[1], str):
        idx = [s[2], s[3], ['mode', s[4]], s[5]]
        i = r.choice([0, 1, 3])
        idx[i] = near(r, idx[i])
        return ['raw', s[1], ['t'] + idx]
    elif s[0] in ('prod', 'union', 'enum') and not isinstance(s[1], list):
        body = [[n, v if s[0] == 'enum' else ['ty', v]] for n, v in s[3]]
        body += [[n, v] for n, v in s[4].get('attrs', ())]
        if r.random() < .5 and body:
            i = r.randrange(len(body))
            body[i][1] = near(r, body[i][1])
        else:
            body.append([r.choice(['meth', '__str__', '__len__']), r.choice([['m', 's0'], ['m', 's1'], ['fresh', 4]])])
        return ['def', s[0], None, s[2], body, {}]
    return s


def near(r, x):
    if isinstance(x, bool):
        return r.choice([int(x), not x, x, ['f', float(x)]])
    if isinstance(x, int):
        return r.choice([['f', float(x)], ['intlike', x], bool(x), x, x + 1, str(x), ['intsub', x]])
    if isinstance(x, list) and x[:1] == ['f']:
        return r.choice([int(x[1]), x])
    if isinstance(x, list) and x[:1] == ['m']:
        return r.choice([['m', 's0'], ['m', 's1'], ['fresh', 0]])
    return x


def generate(r, tier):
    nc = r.choice([1, 1, 2, 2, 3])
    g = c01.new_g(r)
    setup = c01.gen_env(r, g)
    pool = [ts.gen_spec(r, g) if r.random() < .5 else gen_irregular(r, g)]
    for _ in range(r.randint(2, 7)):
        x = r.random()
        if x < .3:
            pool.append(gen_irregular(r, g))
        elif x < .4:
            pool.append(ts.gen_spec(r, g))
        else:
            b = r.choice(pool)
            if b[0] in ('raw', 'def', 'ff', 'sub', 'new') or r.random() < .5:
                pool.append(perturb(r, g, b))
            else:
                pool.append(ts.variant(r, g, b))
    if r.random() < .15:
        pool = ts.gen_family(r, g) or pool
    if 'twins' in g and r.random() < .4:
        pool = pool[:3] + c01.twin_requests(r, g)
    parents = {op[2]: op[3] for op in setup if op[1] == 'user'}
    for b in list(pool):
        if b[0] in ('tuple', 'sum', 'aprod', 'bv', 'fp') and isinstance(b[1], list) and r.random() < .5:
            # the same for the class it derives from
            up = parents[b[1][1]]
            if isinstance(up, str) and b[0] in ('tuple', 'sum', 'aprod'):
                up = None
            pool.append([b[0], up] + b[2:])
    fail = r.random() < .4
    names = {op[2]: op[4] for op in setup if op[1] == 'user' and op[3] == 'leaf'}
    clients = []
    for c in range(nc):
        ops = []
        for j in range(r.randint(3, 10 if nc < 3 else 6)):
            oid = f'c{c}.{j}'
            slot = f'c{c}h{r.randrange(4)}'
            x = r.random()
            if x < .7:
                opt = {}
                if fail and r.random() < .3:
                    opt['arm'] = r.randint(0, 3)
                if r.random() < .08:
                    opt['reenter'] = r.randrange(len(pool))
                ops.append([oid, 'req', r.randrange(len(pool)), slot, opt])
            elif x < .78:
                ops.append([oid, 'drop', slot])
            elif x < .84:
                ops.append([oid, 'collect'])
            elif x < .88 and names:
                lab = r.choice(sorted(names))
                ops.append([oid, 'newleaf', lab, names[lab]])
            elif x < .92:
                ops.append([oid, 'again', slot])
            elif x < .97:
                ops.append([oid, 'rel', slot, f'c{r.randrange(nc)}h{r.randrange(4)}'])
            else:
                ops.append([oid, 'use', slot, r.randrange(6)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'setup': setup, 'pool': pool, 'clients': clients}


# ------------------------------------------------------------------ running ----
def in_fork(ctx, plan, f):
    """f(env) in a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            env = Env(ctx, hw)
            setup(env, plan)
            with os.fdopen(w, 'wb') as fd:
                fd.write(json.dumps(f(env)).encode())
        except BaseException as e:
            os.write(w, json.dumps(['harness', f'{type(e).__name__}: {e}']).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fd:
        buf = fd.read()
    os.waitpid(pid, 0)
    out = json.loads(buf)
    if out and out[0] == 'harness':
        raise RuntimeError(f'pristine request failed in the harness: {out[1]}')
    return out


def relations(ctx, plan):
    """Which pool entries are subtypes of which, when they are requested one
    after the other in a fresh process and all stay alive."""
    def f(env):
        ts_ = []
        for spec in plan['pool']:
            try:
                ts_.append(outcome(env, spec)[1])
            except Missing:
                ts_.append(None)
        return [[sub(a, b) for b in ts_] for a in ts_]
    return in_fork(ctx, plan, f)


def sub(a, b):
    if a is None or b is None:
        return None
    try:
        return bool(issubclass(a, b))
    except Exception as e:
        return type(e).__name__


def pristine(ctx, plan):
    """Outcome of every pool entry, each in its own fork of this process."""
    used = sorted({op[2] for c in plan['clients'] for op in c if op[1] == 'req'}
                  | {op[4]['reenter'] for c in plan['clients'] for op in c
                     if op[1] == 'req' and 'reenter' in op[4]})
    out = {}
    for i in used:
        def f(env, i=i):
            try:
                return outcome(env, plan['pool'][i])[0]
            except Missing:
                return ['missing']
        out[i] = in_fork(ctx, plan, f)
    return out


def setup(env, plan):
    for op in plan.get('setup', ()):
        if op[1] == 'user':
            env.new_user(op[2], op[3], op[4])
        elif op[1] == 'mod':
            env.new_mod(op[2], op[3], op[4])


def use(env, t, which):
    """Unrelated library features, as history."""
    try:
        M = hw.modifiers
        if which == 0:
            M.strip_modifiers(t)
        elif which == 1:
            hw.adt_util.rebind_bitvector(t, hw.AbstractBitVector, hw.SMTBitVector)
        elif which == 2:
            M.push_modifiers(t)
        elif which == 3:
            if isinstance(t, hw.bit_vector_abc.BitVectorMeta):
                v = t(1)
                hw.Bit(1).ite(v, hw.SIntVector[t.size](0))
        elif which == 4:
            list(t.enumerate())
        else:
            for b in ('Tuple', 'Sum', 'Product'):
                issubclass(t, env.base(b))
            M.is_modified(t)
            t.rebind(hw.Bit, hw.BitVector[1])
    except Exception as e:
        from ..kernel import Violation
        if isinstance(e, Violation):
            raise


def run(ctx, plan):
    expect = pristine(ctx, plan)
    rels = relations(ctx, plan) if any(op[1] == 'rel' for c in plan['clients'] for op in c) else None
    env = Env(ctx, hw)
    env.issue = build
    setup(env, plan)
    pool = plan['pool']
    held = {}
    n = [0]

    def verify(view, i, got, oid):
        exp = expect[i]
        if exp == ['missing']:
            return
        n[0] += 1
        if got != exp:
            kind = 'accepted-rejected' if got[0] != exp[0] else 'error' if got[0] == 'err' else 'shape'
            ctx.violation(kind, 'the same request gives another outcome than in a fresh process',
                          spec=pool[i], got=got, fresh=exp, op=oid)

    def do(tid, op):
        oid, kind = op[0], op[1]
        if kind == 'drop':
            held.pop(op[2], None)
        elif kind == 'collect':
            ctx.collect()
        elif kind == 'newleaf':
            if op[2] in env.user:
                ctx.fault('class_recreated')
                env.new_user(op[2], 'leaf', op[3])
        elif kind == 'use':
            h = held.get(op[2])
            if h is not None:
                use(env, h[1], op[3])
        elif kind == 'rel':
            a, b = held.get(op[2]), held.get(op[3])
            if a and b and a[0] != b[0] and all(v[0] == b[2].user[l][0] for l, v in a[2].user.items()):
                ctx.probe('related')
                for x, y in ((a, b), (b, a)):
                    got, exp = sub(x[1], y[1]), rels[x[0]][y[0]]
                    ctx.check(got == exp, 'relation', f'whether {pool[x[0]]} is a subtype of {pool[y[0]]} depends on '
                              'the history', got=got, fresh=exp, op=oid)
        elif kind == 'again':
            h = held.get(op[2])
            if h is not None:
                # what was handed out still looks the way it did
                i, t, view = h
                verify(view, i, ['ok', describe(view, t)], oid)
        elif kind == 'req':
            _, _, i, slot, opt = op
            view = env.frozen()
            if 'arm' in opt:
                env.arm[tid] = opt['arm']
            if 'reenter' in opt and expect.get(opt['reenter'], ['err'])[0] == 'ok':
                env.hook_req[tid] = pool[opt['reenter']]
            try:
                got, t = outcome(view, pool[i])
            except Missing:
                return
            except HookError:
                ctx.check('arm' in opt, 'foreign-failure', 'a request failed with another request\'s error', op=op)
                ctx.probe('request_failed_midway')
                return
            finally:
                env.arm.pop(tid, None)
                env.hook_req.pop(tid, None)
            ctx.note('got', oid, got[0])
            ctx.probe('rejected' if got[0] == 'err' else 'accepted')
            verify(view, i, got, oid)
            if t is not None:
                held[slot] = (i, t, view)

    ctx.clients(plan['clients'], do)
    ctx.nontrivial = n[0] >= 2
