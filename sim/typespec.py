"""A small language of type requests, its builder, and its identity model.

A spec is JSON.  `Env.build(spec)` issues the request against hwtypes' public
API; `Env.key(spec)` is the model: two requests must yield the identical type
iff their keys are equal (an uncached definition has a unique key each time).
"""
import itertools
import types as pytypes

from . import seams

MODES = ('RNE', 'RNA', 'RTP', 'RTN', 'RTZ')


class HookError(Exception):
    """Raised by harness callbacks that the plan armed to fail."""


class HarnessError(Exception):
    """A mistake of the harness, wherever it is raised."""


class Missing(Exception):
    """An operation refers to something an earlier (removed) operation made."""


# attribute values: JSON scalars, ['f', x] a float, ['m', name] a method,
# ['p', name] a property
METHODS = {'s0': lambda self=None: 0, 's1': lambda self=None: 1}
PROPS = {n: property(m) for n, m in METHODS.items()}
METAS = {}


def attr(v):
    if isinstance(v, list):
        return float(v[1]) if v[0] == 'f' else METHODS[v[1]] if v[0] == 'm' else PROPS[v[1]]
    return v


def attr_key(v):
    return tuple(v) if isinstance(v, list) else (type(v).__name__, v)


def meta_of(hw, kind):
    """A user's metaclass for definitions of this kind."""
    if kind not in METAS:
        base = type(hw.TaggedUnion) if kind == 'union' else type(hw.Enum)
        METAS[kind] = type('UMeta', (base,), {'__hash__': base.__hash__})
    return METAS[kind]


def theirs(request, d):
    """Issue a request with a dictionary the caller uses for other things later."""
    try:
        return request(d)
    finally:
        names = list(d)
        d.clear()
        d.update((n, float) for n in reversed(names))
        d['zz'] = int


class Env:
    """Classes, modifiers and handles of one run (shared by all clients)."""

    def __init__(self, ctx, hw):
        self.ctx = ctx
        self.hw = hw
        self.user = {}          # label -> (serial, class)
        self.mods = {}          # label -> (serial, modifier)
        self._serial = itertools.count(1)
        self.arm = {}           # tid -> calls until the hook raises
        self.depth = {}         # tid -> reentrancy depth of hook requests
        self.issue = Env.build    # how hooks issue requests
        self.hook_req = {}      # tid -> spec requested from inside the next hook
        self.seen_in_hook = None
        self.families = {
            'BitVector': hw.BitVector, 'SIntVector': hw.SIntVector, 'UIntVector': hw.UIntVector,
            'NumVector': hw.bit_vector.NumVector,
            'SMTBitVector': hw.SMTBitVector, 'SMTSIntVector': hw.SMTSIntVector,
            'SMTUIntVector': hw.smt_bit_vector.SMTUIntVector,
            'z3BitVector': hw.z3BitVector, 'z3SIntVector': hw.z3_bit_vector.z3SIntVector,
            'z3UIntVector': hw.z3_bit_vector.z3UIntVector,
            'AbstractBitVector': hw.AbstractBitVector,
        }
        self.bits = {'Bit': hw.Bit, 'SMTBit': hw.SMTBit, 'z3Bit': hw.z3Bit}
        self.fps = {'FPVector': hw.FPVector, 'SMTFPVector': hw.SMTFPVector,
                    'AbstractFPVector': hw.fp_vector_abc.AbstractFPVector}
        self.plain = {'int': int, 'str': str, 'bytes': bytes}

    def frozen(self):
        """A view with all labels resolved now (another client may re-create a
        class under the same label while a request runs)."""
        e = object.__new__(Env)
        e.__dict__.update(self.__dict__)
        e.user = dict(self.user)
        e.mods = dict(self.mods)
        return e

    # ---- user classes ----------------------------------------------------
    def hook(self, cls):
        """Body of every harness __init_subclass__: may raise, re-enter, yield."""
        k = self.ctx.k
        tid = k.cur.tid if k.cur is not None else -1
        self.ctx.yield_point('hook')
        n = self.arm.get(tid)
        if n is not None:
            if n <= 0:
                self.arm.pop(tid)
                self.ctx.fault('hook_raises')
                raise HookError('armed')
            self.arm[tid] = n - 1
        spec = self.hook_req.pop(tid, None)
        if spec is not None:
            self.ctx.fault('hook_reenters')
            saved = self.arm.pop(tid, None)
            try:
                view = self.frozen()
                t = self.issue(view, spec)
            finally:
                if saved is not None:
                    self.arm[tid] = saved
            if self.seen_in_hook is not None:
                self.seen_in_hook(view.key(spec), spec, t)
        self.ctx.yield_point('hook-end')

    def new_user(self, label, base, name):
        """base: 'leaf' or the name of a bindable hwtypes class."""
        env = self
        if isinstance(base, list):
            base = self._u(base[1])[1]      # another user class
        if base == 'leaf':
            ns = {'__module__': __name__}
            cls = seams.LeafMeta(name, (), ns)
        else:
            b = self.base(base) if isinstance(base, str) else base

            def __init_subclass__(cls, **kw):
                super(holder[0], cls).__init_subclass__()
                if kw:
                    cls._kw_ = repr(sorted(kw.items()))
                env.hook(cls)
            holder = []

            def fill(ns):
                ns['__module__'] = __name__
                ns['__init_subclass__'] = classmethod(lambda c, **kw: __init_subclass__(c, **kw))
            cls = pytypes.new_class(name, (b,), {}, fill)
            holder.append(cls)
        self.user[label] = (next(self._serial), cls)
        return cls

    def base(self, name):
        for d in (self.families, self.fps):
            if name in d:
                return d[name]
        return {'Tuple': self.hw.Tuple, 'Sum': self.hw.Sum, 'Product': self.hw.Product,
                'TaggedUnion': self.hw.TaggedUnion, 'Enum': self.hw.Enum,
                'AnonymousProduct': self.hw.adt.AnonymousProduct}[name]

    def new_mod(self, label, name, cache):
        m = self.hw.modifiers.make_modifier(name, cache=cache)
        self.mods[label] = (('cached', name) if cache else next(self._serial), m)
        return m

    # ---- resolving ---------------------------------------------------------
    def _u(self, label):
        try:
            return self.user[label]
        except KeyError:
            raise Missing(label)

    def cls_of(self, c, table):
        """c: a class name of `table` or ['u', label]."""
        if isinstance(c, list):
            s, cls = self._u(c[1])
            return ('u', s), cls
        return c, table[c]

    # ---- the model -----------------------------------------------------------
    def key(self, spec):
        k = spec[0]
        if k == 'plain':
            return ('plain', spec[1])
        if k == 'bit':
            return ('bit', spec[1])
        if k == 'user':
            return ('user', self._u(spec[1])[0])
        if k == 'bv':
            return ('bv', self.cls_of(spec[1], self.families)[0], spec[2])
        if k == 'fp':
            return ('fp', self.cls_of(spec[1], self.fps)[0], *spec[2:6])
        if k == 'tuple':
            return ('tuple', self._tk(spec[1], 'Tuple'), tuple(map(self.key, spec[2])))
        if k == 'sum':
            return ('sum', self._tk(spec[1], 'Sum'), frozenset(map(self.key, spec[2])))
        if k == 'aprod':
            return ('aprod', self._tk(spec[1], 'AnonymousProduct'),
                    tuple((n, self.key(s)) for n, s in spec[2]))
        if k in ('prod', 'union', 'enum'):
            cls, name, fields, opts = spec[1:5]
            if not opts.get('cache', True):
                return ('uncached', next(self._serial))
            if k == 'prod':
                f = tuple((n, self.key(s)) for n, s in fields)
            elif k == 'union':
                f = frozenset((n, self.key(s)) for n, s in fields)
            else:
                f = frozenset((n, type(v).__name__, v) for n, v in fields)
            base = {'prod': 'Product', 'union': 'TaggedUnion', 'enum': 'Enum'}[k]
            attrs = frozenset((n, *attr_key(v)) for n, v in opts.get('attrs', ()))
            kw = frozenset((n, *attr_key(v)) for n, v in opts.get('kw', ()))
            return (k, self._tk(cls, base), name, f, attrs, kw, bool(opts.get('meta')))
        if k == 'mod':
            try:
                s = self.mods[spec[1]][0]
            except KeyError:
                raise Missing(spec[1])
            return ('mod', s, self.key(spec[2]))
        raise HarnessError(spec)

    def _tk(self, c, default):
        if isinstance(c, list):
            return ('u', self._u(c[1])[0])
        return default

    def _tc(self, c, default):
        if isinstance(c, list):
            return self._u(c[1])[1]
        return self.base(default)

    # ---- building --------------------------------------------------------------
    def build(self, spec, parts=None):
        """Issue the request.  parts: list collecting (key-spec, type) of components."""
        t = self._build(spec, parts)
        if parts is not None:
            parts.append((spec, t))
        return t

    def _build(self, spec, parts):
        k = spec[0]
        hw = self.hw
        if k == 'plain':
            return self.plain[spec[1]]
        if k == 'bit':
            return self.bits[spec[1]]
        if k == 'user':
            return self._u(spec[1])[1]
        if k == 'bv':
            cls = self.cls_of(spec[1], self.families)[1]
            via = spec[3] if len(spec) > 3 else None
            n = spec[2]
            if via == 'zext' and n >= 2:
                return type(cls[n - 1](0).zext(1))
            if via == 'concat' and n >= 2:
                return type(cls[n - 1](0).concat(cls[1](0)))
            if via == 'slice' and n >= 1:
                return type(cls[n + 2](0)[1:n + 1])
            if via == 'value' and n >= 1:
                return type(cls[n](0))
            return cls[n]
        if k == 'fp':
            cls = self.cls_of(spec[1], self.fps)[1]
            return cls[spec[2], spec[3], getattr(hw.fp_vector_abc.RoundingMode, spec[4]), spec[5]]
        if k == 'tuple':
            return self._tc(spec[1], 'Tuple')[tuple(self.build(s, parts) for s in spec[2])]
        if k == 'sum':
            return self._tc(spec[1], 'Sum')[tuple(self.build(s, parts) for s in spec[2])]
        if k == 'aprod':
            fs = {n: self.build(s, parts) for n, s in spec[2]}
            cls = self._tc(spec[1], 'AnonymousProduct')
            return theirs(lambda d: cls[d], fs)
        if k in ('prod', 'union', 'enum'):
            cls, name, fields, opts = spec[1:5]
            base = self._tc(cls, {'prod': 'Product', 'union': 'TaggedUnion', 'enum': 'Enum'}[k])
            if k == 'enum':
                fs = {n: v for n, v in fields}
            else:
                fs = {n: self.build(s, parts) for n, s in fields}
            if opts.get('from_fields'):
                return theirs(lambda d: base.from_fields(name, d, cache=opts.get('cache', True)), fs)
            ns = {'__module__': opts.get('module', __name__), '__qualname__': name}
            if opts.get('doc'):
                ns['__doc__'] = opts['doc']
            ns.update(fs)
            ns.update((n, attr(v)) for n, v in opts.get('attrs', ()))
            kw = {n: attr(v) for n, v in opts.get('kw', ())}
            if opts.get('meta'):
                kw['metaclass'] = meta_of(self.hw, k)
            if not opts.get('cache', True):
                kw['cache'] = False
            return pytypes.new_class(name, (base,), kw, lambda d: d.update(ns))
        if k == 'mod':
            try:
                m = self.mods[spec[1]][1]
            except KeyError:
                raise Missing(spec[1])
            return m(self.build(spec[2], parts))
        raise HarnessError(spec)


# ------------------------------------------------------------- generation ----
def gen_leaf(r, g):
    """g: dict of enabled features and labels."""
    ch = ['bv'] * 4 + ['bit'] * 2 + ['plain']
    if g['leafs']:
        ch += ['user'] * 2
    if g.get('fp'):
        ch += ['fp']
    k = r.choice(ch)
    if k == 'bv':
        return gen_bv(r, g)
    if k == 'bit':
        return ['bit', r.choice(['Bit', 'SMTBit', 'z3Bit']) if g.get('sym') else 'Bit']
    if k == 'plain':
        return ['plain', r.choice(['int', 'str', 'bytes'])]
    if k == 'fp':
        return gen_fp(r, g)
    return ['user', r.choice(g['leafs'])]


def gen_bv(r, g):
    fams = ['BitVector', 'BitVector', 'SIntVector', 'UIntVector']
    if g.get('sym'):
        fams += ['SMTBitVector', 'SMTSIntVector', 'SMTUIntVector', 'z3BitVector', 'z3SIntVector',
                 'NumVector', 'AbstractBitVector']
    fams += [['u', u] for u in g['bvs']] * 2
    fam = r.choice(fams)
    s = ['bv', fam, r.choice(g['sizes'])]
    if g.get('via') and fam in ('BitVector', 'SIntVector', 'UIntVector', 'SMTBitVector', 'z3BitVector') \
            and r.random() < .3:
        s.append(r.choice(['zext', 'concat', 'slice', 'value']))
    return s


def gen_fp(r, g):
    fams = ['FPVector', 'FPVector']
    if g.get('sym'):
        # SMTFPVector has no (working) unbound subclasses, so no modified types
        fams += ['AbstractFPVector'] if g.get('no_smtfp') else ['SMTFPVector', 'AbstractFPVector']
    fams += [['u', u] for u in g['fps']] * 2
    return ['fp', r.choice(fams), r.choice([2, 3, 8]), r.choice([2, 3, 7]), r.choice(MODES[:3]), r.random() < .5]


def gen_spec(r, g, depth=2):
    kinds = g['kinds']
    k = r.choice(kinds)
    if depth == 0 and k not in ('bv', 'fp', 'enum'):
        return gen_leaf(r, g)

    def sub():
        if depth > 1 and r.random() < .35:
            return gen_spec(r, g, depth - 1)
        return gen_leaf(r, g)

    def cls(group):
        u = g.get(group) or []
        return ['u', r.choice(u)] if u and r.random() < .4 else None
    if k == 'bv':
        return gen_bv(r, g)
    if k == 'fp':
        return gen_fp(r, g)
    if k == 'tuple':
        return ['tuple', cls('tuples'), [sub() for _ in range(r.randint(0 if r.random() < .1 else 1, 3))]]
    if k == 'sum':
        return ['sum', cls('sums'), [sub() for _ in range(r.randint(1, 3))]]
    names = ['a', 'b', 'c']
    if k == 'aprod':
        ns = r.sample(names, r.randint(1, 3))
        return ['aprod', cls('aprods'), [[n, sub()] for n in ns]]
    if k == 'prod' or k == 'union':
        ns = r.sample(names, r.randint(1, 3))
        c = cls(k + 's')
        return [k, c, r.choice(['P', 'P', 'Q', 'Q', 'MP']), [[n, sub()] for n in ns], gen_opts(r, g, k, c is not None)]
    if k == 'enum':
        ns = r.sample(names, r.randint(1, 3))
        vals = r.sample(range(4), len(ns))
        c = cls('enums')
        return ['enum', c, r.choice(['P', 'P', 'E', 'E', 'MP']), [[n, v] for n, v in zip(ns, vals)],
                gen_opts(r, g, 'enum', c is not None)]
    if k == 'mod':
        return ['mod', r.choice(g['mods']), gen_spec(r, dict(g, no_smtfp=True, kinds=[x for x in kinds if x != 'mod'] or ['bv']), depth - 1)]
    raise HarnessError(k)


ATTR_NAMES = ['k', 'j', 'meth', '__str__', '__call__']
ATTR_VALUES = [0, 1, True, ['f', 1.0], 'x', ['m', 's0'], ['m', 's1'], ['p', 's0'], ['p', 's1']]


def gen_attr(r, kind):
    v = r.choice(ATTR_VALUES[3:] if kind == 'enum' else ATTR_VALUES)
    return [r.choice(ATTR_NAMES), v]


KW_VALUES = [1, 1, True, ['f', 1.0], 's', 't']


def gen_opts(r, g, kind, user=False):
    o = {}
    if user and r.random() < .5:
        # user classes take keywords
        o['kw'] = gen_kw(r)
        return o
    if r.random() < .15:
        o['cache'] = False
    x = r.random()
    if x < .2:
        o['from_fields'] = True
    elif x < .45:
        o['attrs'] = [gen_attr(r, kind)]
    if 'from_fields' not in o:
        if r.random() < .2:
            o['doc'] = r.choice(['d1', 'd2'])
        if kind == 'enum' and r.random() < .1:
            o['meta'] = True
    return o


def gen_family(r, g):
    """A class definition and others that differ from it in one parameter ([] if there are no kinds to define)."""
    ks = [k for k in ('prod', 'union', 'enum') if k in g['kinds']]
    if not ks:
        return []
    k = r.choice(ks)
    b = gen_spec(r, dict(g, kinds=[k]))
    if g.get(k + 's') and r.random() < .6:
        b[1] = ['u', r.choice(g[k + 's'])]
        b[4] = gen_opts(r, g, k, True)
    return [b] + [vary_def(r, g, b) for _ in range(3)]


def gen_kw(r):
    """Class keywords."""
    return [[n, r.choice(KW_VALUES)] for n in r.choice(['x', 'x', 'y', 'xy'])]


def vary_def(r, g, s):
    """A class definition differing from s in (at most) one parameter."""
    k = s[0]
    s = [s[0], s[1], s[2], [list(x) for x in s[3]], dict(s[4])]
    f, o = s[3], s[4]
    if 'kw' in o and r.random() < .4:
        if r.random() < .5:
            o['kw'] = [[{'x': 'y', 'y': 'x'}[n] if len(o['kw']) == 1 else n, v] for n, v in o['kw']]
        else:
            o['kw'] = gen_kw(r)
        return s
    x = r.choice(['order', 'order', 'name', 'field', 'names', 'cls', 'attr', 'attr', 'attrval', 'attrval', 'kw', 'meta',
                  'cache', 'doc', 'ff'])
    if x == 'order':
        r.shuffle(f)
    elif x == 'name':
        s[2] = r.choice(['P', 'Q', 'E', 'MP'])
    elif x == 'field':
        i = r.randrange(len(f))
        if k == 'enum':
            v = f[i][1]
            f[i][1] = bool(v) if r.random() < .5 and v in (0, 1) else r.randrange(5)
        else:
            f[i][1] = gen_leaf(r, g)
    elif x == 'names':
        ns = [n for n, _ in f]
        r.shuffle(ns)
        s[3] = [[n, v] for n, (_, v) in zip(ns, f)]
    elif x == 'cls':
        us = g.get(k + 's') or []
        s[1] = ['u', r.choice(us)] if us and r.random() < .7 else None
    elif x in ('attr', 'attrval'):
        old = o.pop('attrs', None)
        if old and x == 'attrval':
            n, v = old[0]
            near = {1: [True, ['f', 1.0]], True: [1, ['f', 1.0]]}
            c = [['m', 's0'], ['m', 's1'], ['p', 's0'], ['p', 's1'], ['f', 1.0]] if isinstance(v, list) else near.get(v, [1, True])
            if k == 'enum':
                c = [y for y in c if isinstance(y, list)] or ['y']
            o['attrs'] = [[n, r.choice(c)]]
        elif not old or r.random() < .7:
            o['attrs'] = [gen_attr(r, k)]
    elif x == 'kw':
        if s[1] is not None:
            if o.pop('kw', None) is None or r.random() < .8:
                o['kw'] = gen_kw(r)
    elif x == 'meta':
        if k == 'enum':
            o['meta'] = not o.get('meta')
    elif x == 'cache':
        o['cache'] = not o.get('cache', True)
    elif x == 'doc':
        o['doc'] = r.choice(['d1', 'd2'])
    else:
        o['from_fields'] = not o.get('from_fields')
    if s[1] is None:
        o.pop('kw', None)       # only user classes take keywords here
    if o.get('from_fields'):
        for n in ('attrs', 'kw', 'meta', 'doc'):
            o.pop(n, None)
    return s


def variant(r, g, spec):
    """A request equal to or differing from spec in one parameter."""
    s = [x for x in spec]
    k = s[0]
    c = r.random()
    if c < .35:
        return s
    if k in ('bv', 'fp') and g[k + 's'] and c < .55:
        s[1] = ['u', r.choice(g[k + 's'])]      # of an other class
        return s if k == 'fp' else s[:3]
    if k == 'bv':
        if c < .75:
            s[2] = r.choice(g['sizes'])
        else:
            t = gen_bv(r, g)
            s = [s[0], t[1], s[2]]
        return s
    if k == 'fp':
        t = gen_fp(r, g)
        i = r.randint(1, 5)
        s[i] = t[i]
        return s
    if k in ('tuple', 'sum', 'aprod'):
        f = [x for x in s[2]]
        if c < .45:
            us = g.get(k + 's') or []
            s[1] = ['u', r.choice(us)] if us and r.random() < .6 else None
        elif c < .55:
            r.shuffle(f)
        elif f and c < .75:
            i = r.randrange(len(f))
            f[i] = [f[i][0], gen_leaf(r, g)] if k == 'aprod' else gen_leaf(r, g)
        elif k == 'aprod':
            names = [n for n, _ in f]
            r.shuffle(names)
            f = [[n, t] for n, (_, t) in zip(names, f)]
        elif f:
            f = f + [f[0]]
        s[2] = f
        return s
    if k in ('prod', 'union', 'enum'):
        return vary_def(r, g, s)
    if k == 'mod':
        if c < .6:
            s[1] = r.choice(g['mods'])
        else:
            s[2] = variant(r, dict(g, no_smtfp=True), s[2])
        return s
    return s
