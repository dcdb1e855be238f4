"""Workload of C06 and C07: floating point under hostile ambient contexts.

Every client owns a gmpy2 context (the real one of its thread) that the plan
changes at will; operations on many formats run between those changes, fail,
call back into caller code that re-enters, and are preempted anywhere.

judge 'C06': every result equals the exact-rational model of its own format.
judge 'C07': the caller's context is the same object, with the same settings
             and flags, after every operation; nobody else ever changes it.
"""
import warnings
from fractions import Fraction

from . import fpmodel as M
from .fpmodel import Fmt, NAN
from .typespec import HarnessError, HookError, Missing

hw = None
gmpy2 = None
RM = None


def prepare():
    global hw, gmpy2, RM, ATTRS, DEFAULT
    import gmpy2 as g
    import hwtypes
    hw = hwtypes
    gmpy2 = g
    RM = hw.fp_vector_abc.RoundingMode
    c = gmpy2.get_context()
    ATTRS = [n for n in dir(c) if not n.startswith('_') and not callable(getattr(c, n))]
    DEFAULT = snap(c)


FORMATS = [[8, 7], [8, 23], [5, 10], [3, 4], [2, 2], [2, 3], [4, 3], [4, 1], [3, 1], [11, 52], [15, 64],
           [6, 70], [8, 7], [5, 2]]
MODES = ['RNE', 'RNE', 'RTP', 'RTN', 'RTZ', 'RNA']


def snap(c):
    return {n: getattr(c, n) for n in ATTRS}


# ---------------------------------------------------------------- generation
SPECIAL = [['f', 'nan'], ['f', 'inf'], ['f', '-inf'], ['f', '0.0'], ['f', '-0.0'], ['f', '1.0'], ['f', '-1.0'],
           ['s', '-0'], ['s', 'nan'], ['s', 'inf'], ['s', '-inf'], ['i', 0]]


def gen_fmt(r, g):
    return r.choice(g['fmts'])


def gen_lit(r, g, big=True):
    x = r.random()
    if x < .18:
        return r.choice(SPECIAL)
    if x < .30:
        return ['i', r.choice([1, -1, 2, 3, 5, -7, 17, 255, 256, 257, -1000, 65519, 65520, 1 << 40, (1 << 60) + 1,
                               -(1 << 127)]) + (r.randint(-3, 3) if r.random() < .3 else 0)]
    if x < .5:
        m = r.getrandbits(r.choice([3, 8, 20, 53]))
        return ['f', ((-1) ** r.getrandbits(1) * m * 2.0 ** r.choice([-1074, -160, -133, -20, -9, -3, -1, 0, 2, 60])).hex()]
    if x < .62:
        return ['s', r.choice(['0.1', '-0.1', '1/3', '-2/3', '1e-3', '3.5', '2.5', '-1e30', '1e-45', '6e-8', '1e5000',
                               '-1e-5000', '1/7', '65519.999', '0.49999999'])]
    if x < .72:
        return ['q', r.randint(-1000, 1000), r.choice([3, 7, 10, 1 << 30, (1 << 80) + 1, 4097])]
    if x < .8:
        return ['z', r.randint(-(1 << 70), 1 << 70) >> r.choice([0, 40, 60])]
    if x < .92:
        # a caller's own mpfr of some precision and exponent
        return ['m', r.getrandbits(1), r.getrandbits(r.choice([4, 9, 30, 90])) | 1, r.randint(-160, 60)]
    return ['b', r.getrandbits(3), r.getrandbits(140)]     # bit pattern of the target format


ROUND = {'RNE': 0, 'RTZ': 1, 'RTP': 2, 'RTN': 3, 'RNA': 4}


def gen_amb(r, g):
    """A change of the client's ambient context."""
    x = r.random()
    how = r.choice(['mut', 'mut', 'set', 'nest'])
    a = {}
    n = r.randint(1, 4)
    if x < .35:
        # the arithmetic of a format in use, but for one or two settings
        eb, mb, mode, ieee = gen_fmt(r, g)
        how = r.choice(['set', 'set', 'nest'])
        emax = 1 << (eb - 1)
        a = {'precision': mb + 1, 'emax': emax, 'emin': 3 - emax - mb if ieee else 3 - emax, 'round': ROUND[mode],
             'subnormalize': ieee, 'allow_complex': False}
        n = r.choice([0, 1, 1, 1, 2])
    for _ in range(n):
        k = r.choice(['precision', 'round', 'emax', 'emin', 'subnormalize', 'trap', 'flag', 'allow_complex',
                      'rational_division', 'real_prec'])
        if k == 'precision':
            a[k] = r.choice([2, 3, 5, 24, 53, 200, 1000])
        elif k == 'round':
            a[k] = r.randint(0, 4)
        elif k == 'emax':
            a[k] = r.choice([1, 2, 8, 1024, 1073741823])
        elif k == 'emin':
            a[k] = r.choice([-1, -2, -8, -1021, -1073741823])
        elif k == 'real_prec':
            a[k] = r.choice([2, 30])
        elif k == 'trap':
            for t in r.sample(['underflow', 'overflow', 'inexact', 'invalid', 'erange', 'divzero'], r.randint(1, 6)):
                a['trap_' + t] = True
        elif k == 'flag':
            for t in r.sample(['underflow', 'overflow', 'inexact', 'invalid', 'erange', 'divzero'], r.randint(1, 6)):
                a[t] = r.random() < .7
        else:
            a[k] = r.random() < .7
    return how, a


UNARY = ['abs', 'neg', 'sqrt', 'rint', 'is_normal', 'is_subnormal', 'is_zero', 'is_infinite', 'is_NaN',
         'is_negative', 'is_positive', 'bits', 'float', 'o_neg', 'o_abs', 'repr', 'frombits']
BINARY = ['add', 'sub', 'mul', 'div', 'rem', 'min', 'max', 'leq', 'lt', 'geq', 'gt', 'eq',
          'o_add', 'o_sub', 'o_mul', 'o_truediv', 'o_mod', 'o_eq', 'o_ne', 'o_ge', 'o_gt', 'o_le', 'o_lt']
CONV = ['ubv', 'sbv']
FAIL = ['junk', 'nonum', 'mix', 'badbits', 'int_nan', 'badfmt', 'ctxattr', 'cb_raise', 'noattr']


def gen_op(r, g, c, j, tid_handles):
    oid = f'{c}.{j}'
    h = lambda: r.choice(tid_handles)
    x = r.random()
    if x < .16:
        how, a = gen_amb(r, g)
        return [oid, 'amb', how, a]
    if x < .34:
        return [oid, 'make', h(), gen_fmt(r, g), gen_lit(r, g), r.choice([0, 0, 0, 1])]
    if x < .56:
        y = ['h', h()] if r.random() < .6 else ['l', gen_lit(r, g)]
        return [oid, 'bin', r.choice(BINARY), h(), y, h()]
    if x < .74:
        return [oid, 'un', r.choice(UNARY), h(), h()]
    if x < .79:
        return [oid, 'fma', h(), ['h', h()] if r.random() < .7 else ['l', gen_lit(r, g)],
                ['h', h()] if r.random() < .7 else ['l', gen_lit(r, g)], h()]
    if x < .82:
        return [oid, 'cast', h(), gen_fmt(r, g), h()]
    if x < .85:
        return [oid, 'conv', r.choice(CONV), h(), r.choice([1, 4, 8, 13, 33, 64, 100])]
    if x < .90:
        return [oid, 'fail', r.choice(FAIL), h(), gen_fmt(r, g)]
    if x < .94:
        # caller code called back half way, which computes in another format
        return [oid, 'cb', h(), gen_fmt(r, g), gen_lit(r, g), gen_fmt(r, g), gen_lit(r, g), r.choice(['float', 'int']),
                r.random() < .3]
    if x < .96:
        return [oid, 'random', h(), gen_fmt(r, g), r.random() < .5]
    if x < .98:
        return [oid, 'class', gen_fmt(r, g), r.random() < .5]
    return [oid, 'collect']


def generate(r, tier):
    from .props import c01
    nc = r.choice([1, 1, 2, 2, 3])
    g = {'fmts': [r.choice(FORMATS) + [r.choice(MODES), r.random() < .6] for _ in range(r.randint(1, 4))]}
    if r.random() < .4:
        f = r.choice(g['fmts'])
        g['fmts'].append(f[:2] + [r.choice(MODES), r.random() < .5])
    setup = []
    for i in range(r.randint(1, 3)):
        setup.append([f's{len(setup)}', 'make', f'g{i}', gen_fmt(r, g), gen_lit(r, g), 0])
    clients = []
    for c in range(nc):
        hs = [f'c{c}h{i}' for i in range(4)] + [s[2] for s in setup]
        own = hs[:4]
        ops = []
        if r.random() < .75:
            how, a = gen_amb(r, g)
            ops.append([f'c{c}.a', 'amb', how, a])
        for i in range(2):
            ops.append([f'c{c}.i{i}', 'make', own[i], gen_fmt(r, g), gen_lit(r, g), 0])
        for j in range(r.randint(3, 22 if nc == 1 else 12)):
            o = gen_op(r, g, f'c{c}', j, hs)
            # results go to own handles only
            if o[1] in ('make', 'cb', 'random'):
                o[2] = r.choice(own)
            elif o[1] in ('bin', 'un', 'fma', 'cast'):
                o[-1] = r.choice(own)
            ops.append(o)
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'setup': setup, 'clients': clients}


# ------------------------------------------------------------------ execution
class Handle:
    __slots__ = ('obj', 'v', 'f', 't')

    def __init__(self, obj, v, f, t):
        self.obj, self.v, self.f, self.t = obj, v, f, t


def models(f):
    """RNA may be implemented as nearest-ties-away or (known) as away from zero."""
    return [f] if f.mode != 'RNA' else [Fmt(f.eb, f.mb, 'AWAY', f.ieee), f]


class Work:
    def __init__(self, ctx, judge):
        self.ctx = ctx
        self.judge = judge
        self.h = {}
        self.amb = {}           # tid -> (context object, expected settings)
        self.tids = set()
        self.done = 0
        self.types = {}         # fmt -> subclass created by 'class'

    # -- contexts
    def expect(self, tid, when, op):
        """The client's context is exactly as the client left it."""
        if self.judge != 'C07':
            return
        with self.ctx.atomic():
            c, want = self.amb[tid]
            now = gmpy2.get_context()
            self.ctx.check(now is c, 'context-replaced', f'{when} the caller\'s current context is another object',
                           op=op, now=str(now))
            got = snap(now)
            d = {k: [want[k], got[k]] for k in want if want[k] != got[k]}
            self.ctx.check(not d, 'context-changed', f'{when} the caller\'s context differs: {d}', op=op)

    def first(self, tid):
        if tid not in self.tids:
            self.tids.add(tid)
            with self.ctx.atomic():
                c = gmpy2.get_context()
                got = snap(c)
                if self.judge == 'C07' and tid >= 0:
                    d = {k: [DEFAULT[k], got[k]] for k in DEFAULT if DEFAULT[k] != got[k]}
                    self.ctx.check(not d, 'context-leaked', f'a new thread starts with a changed context: {d}')
                self.amb[tid] = (c, got)

    def set_amb(self, tid, how, a):
        with self.ctx.atomic():
            if how == 'set':
                gmpy2.set_context(gmpy2.context())
            c = gmpy2.get_context()
            for k, v in a.items():
                setattr(c, k, v)
            self.amb[tid] = (c, snap(c))
        self.ctx.fault('hostile_context')

    # -- types and literals
    def fmt(self, spec):
        return Fmt(*spec)

    def type_of(self, spec):
        return hw.FPVector[spec[0], spec[1], getattr(RM, spec[2]), spec[3]]

    def literal(self, lit, f):
        """(python object, [possible exact values]); objects are made outside any context."""
        k = lit[0]
        if k == 'i':
            return lit[1], M.exact(lit[1])
        if k == 'f':
            try:
                x = float.fromhex(lit[1])
            except ValueError:
                x = float(lit[1])
            return x, M.exact(x)
        if k == 's':
            s = lit[1]
            if s.lstrip('-') in ('inf', 'nan') or s == '-0':
                return s, M.exact(float(s))
            if s.endswith('e5000') or s.endswith('e-5000'):
                from decimal import Decimal
                return s, M.exact(Fraction(s))
            return s, M.exact(Fraction(s))
        with self.ctx.atomic(), gmpy2.local_context(gmpy2.context()) as c:
            if k == 'q':
                return gmpy2.mpq(lit[1], lit[2]), M.exact(Fraction(lit[1], lit[2]))
            if k == 'z':
                return gmpy2.mpz(lit[1]), M.exact(lit[1])
            if k == 'm':
                c.precision = max(2, lit[2].bit_length())
                v = gmpy2.mpfr(lit[2]) * gmpy2.exp2(lit[3])
                if lit[1]:
                    v = -v
                q = Fraction(lit[2]) * M.pow2(lit[3])
                return v, ('fin', lit[1], q)
        raise HarnessError(lit)

    def pattern(self, lit, f):
        kind, bits = lit[1], lit[2]
        m = (bits >> f.eb) & ((1 << f.mb) - 1)
        e = bits & ((1 << f.eb) - 1)
        s = (bits >> 139) & 1
        if kind == 1:
            e = 0
        elif kind == 2:
            e = (1 << f.eb) - 1
        elif kind == 3:
            m = 0
        elif kind == 4:
            e, m = 0, m & 1
        elif kind == 5:
            e = (1 << f.eb) - 2
        return (s << (f.size - 1)) | (e << f.mb) | m

    def construct(self, T, f, lit):
        """(thunk, [expected values])"""
        if lit[0] == 'b':
            p = self.pattern(lit, f)
            bv = hw.BitVector[f.size](p)
            return (lambda: T.reinterpret_from_bv(bv)), [f.from_pattern(p)]
        x, v = self.literal(lit, f)
        return (lambda: T(x)), [m.of(v) for m in models(f)]

    # -- judging
    def read(self, obj, f):
        with self.ctx.atomic():
            bv = obj.reinterpret_as_bv()
            p = int(bv)
            return f.decode(p), bv.size

    @staticmethod
    def same(got, want):
        if want == ('inf', None):
            return got[0] == 'inf'
        return got == want

    def accept(self, tid, op, slot, obj, T, f, wants, allow_sub=False):
        """A floating-point result: check and store it."""
        ctx = self.ctx
        with ctx.atomic():
            if self.judge == 'C06':
                ctx.check(type(obj) is T, 'wrong-type', f'the result has type {type(obj)}', op=op)
                got, size = self.read(obj, f)
                ctx.check(size == f.size, 'wrong-size', 'bit pattern of wrong size', op=op)
                ctx.check(any(self.same(got, w) for w in wants), 'wrong-value',
                          f'result {show(got)} in format {f.key()}, expected {[show(w) for w in wants]}', op=op)
                if len(wants) > 1 and not self.same(got, wants[-1]):
                    ctx.probe('known_RNA_rounds_away_from_zero')
                x = float(obj)
                ok = [M.to_float(got, m.mode) for m in models(f)]
                ctx.check(any(x.hex() == y.hex() or (x != x and y != y) for y in ok), 'wrong-float',
                          f'float() gives {x!r}, the value is {show(got)}', op=op)
                ctx.note('value', op[0], show(got))
            else:
                got, _ = self.read(obj, f)
            self.h[slot] = Handle(obj, got, f, T)
            self.done += 1

    def accept_plain(self, op, got, wants):
        if self.judge == 'C06':
            self.ctx.check(any(got == w and type(got) is type(w) for w in wants), 'wrong-value',
                           f'result {got!r}, expected {wants!r}', op=op)
            self.ctx.note('plain', op[0], repr(got))
        self.done += 1

    def get(self, slot):
        try:
            return self.h[slot]
        except KeyError:
            raise Missing(slot)

    # -- operations
    def do(self, tid, op):
        self.first(tid)
        self.expect(tid, 'before the operation', op)
        warnings.simplefilter('ignore')
        try:
            if op[1] == 'amb':
                if op[2] == 'nest' and tid >= 0:
                    # the rest of this client runs in a context the caller nested
                    with self.ctx.atomic():
                        gmpy2.set_context(gmpy2.get_context().copy())
                self.set_amb(tid, op[2], op[3])
            else:
                getattr(self, 'do_' + op[1])(tid, op)
        except Missing:
            return
        except HookError:
            raise HarnessError('unarmed callback failed')
        self.expect(tid, 'after the operation', op)

    def do_collect(self, tid, op):
        self.ctx.collect()

    def do_class(self, tid, op):
        f = self.fmt(op[2])
        T = self.type_of(op[2])
        if op[3]:
            class Sub(T):
                pass
            self.types[f.key()] = Sub
        self.done += 1

    def the_type(self, spec, sub):
        if sub and self.fmt(spec).key() in self.types:
            return self.types[self.fmt(spec).key()]
        return self.type_of(spec)

    def do_make(self, tid, op):
        _, _, slot, spec, lit, sub = op
        f = self.fmt(spec)
        T = self.the_type(spec, sub)
        thunk, wants = self.construct(T, f, lit)
        self.accept(tid, op, slot, thunk(), T, f, wants)

    def do_cast(self, tid, op):
        _, _, a, spec, slot = op
        A = self.get(a)
        f, T = self.fmt(spec), self.type_of(spec)
        self.accept(tid, op, slot, T(A.obj), T, f, [m.of(A.v) for m in models(f)])

    def do_random(self, tid, op):
        _, _, slot, spec, inf = op
        f = self.fmt(spec)
        T = self.type_of(spec)
        obj = T.random(allow_inf=inf)
        got, _ = self.read(obj, f)
        if self.judge == 'C06':
            self.ctx.check(got != NAN and (inf or got[0] != 'inf'), 'wrong-value', f'random drew {show(got)}', op=op)
        self.h[slot] = Handle(obj, got, f, T)
        self.done += 1

    def operand(self, y, f):
        """A second operand: (object, [value per model]); coercion follows the first operand's format."""
        if y[0] == 'h':
            h = self.get(y[1])
            return h.obj, [h.v] * len(models(f)), h.f.key() == f.key()
        lit = y[1]
        if lit[0] == 'b':
            lit = ['i', lit[2] % 17]
        x, v = self.literal(lit, f)
        return x, [m.of(v) for m in models(f)], True

    def do_bin(self, tid, op):
        _, _, name, a, y, slot = op
        A = self.get(a)
        f, T = A.f, A.t
        x, vs, ok = self.operand(y, f)
        plain = name[2:] if name.startswith('o_') else name
        call = {'o_add': lambda: A.obj + x, 'o_sub': lambda: A.obj - x, 'o_mul': lambda: A.obj * x,
                'o_truediv': lambda: A.obj / x, 'o_mod': lambda: A.obj % x, 'o_eq': lambda: A.obj == x,
                'o_ne': lambda: A.obj != x, 'o_ge': lambda: A.obj >= x, 'o_gt': lambda: A.obj > x,
                'o_le': lambda: A.obj <= x, 'o_lt': lambda: A.obj < x}.get(name)
        if call is None:
            m = getattr(A.obj, 'fp_' + name)
            call = lambda: m(x)
        if not ok:
            return self.must_fail(op, call, TypeError)
        res = call()
        alias = {'truediv': 'div', 'mod': 'rem', 'ge': 'geq', 'le': 'leq'}
        plain = alias.get(plain, plain)
        wants = []
        for m, b in zip(models(f), vs):
            av = A.v
            # an unknown infinity sign has been observed by now
            if (av, b).count(('inf', None)):
                b = ('inf', 0)
            # the coerced operand of a flushed format may be an infinity of either sign
            cands = [b]
            if m.norm(NAN) != NAN and y[0] == 'l' and self.literal_is_nan(y[1]):
                cands = [('inf', 0), ('inf', 1)]
            for b in cands:
                wants.append(self.binary(m, plain, av, b))
        if plain in ('add', 'sub', 'mul', 'div', 'rem', 'min', 'max'):
            self.accept(tid, op, slot, res, T, f, wants)
        else:
            self.accept_plain(op, bool(res), wants)
            self.ctx.check(type(res) is hw.Bit, 'wrong-type', f'a comparison returned {type(res)}', op=op)

    @staticmethod
    def literal_is_nan(lit):
        return lit[0] in 'fs' and lit[1] == 'nan'

    def binary(self, m, name, a, b):
        if name in ('add', 'sub', 'mul', 'div', 'rem'):
            return m.norm(getattr(m, name)(a, b))
        if name == 'min':
            return m.norm(M.fmin(a, b))
        if name == 'max':
            return m.norm(M.fmax(a, b))
        o = M.order(a, b)
        if name == 'eq':
            return o == 0
        if name == 'ne':
            return o != 0
        if o is None:
            return False
        return {'leq': o <= 0, 'lt': o < 0, 'geq': o >= 0, 'gt': o > 0}[name]

    def do_fma(self, tid, op):
        _, _, a, y, z, slot = op
        A = self.get(a)
        f, T = A.f, A.t
        b, bv, ok1 = self.operand(y, f)
        c, cv, ok2 = self.operand(z, f)
        if not (ok1 and ok2):
            return self.must_fail(op, lambda: A.obj.fp_fma(b, c), TypeError)
        if not f.ieee and any(o[0] == 'l' and self.literal_is_nan(o[1]) for o in (y, z)):
            return
        res = A.obj.fp_fma(b, c)
        wants = [m.norm(m.fma(A.v, x, w)) for m, x, w in zip(models(f), bv, cv)]
        self.accept(tid, op, slot, res, T, f, wants)

    def do_un(self, tid, op):
        _, _, name, a, slot = op
        A = self.get(a)
        f, T, v = A.f, A.t, A.v
        if name in ('abs', 'o_abs', 'neg', 'o_neg', 'sqrt', 'rint'):
            fn = {'abs': lambda: A.obj.fp_abs(), 'o_abs': lambda: abs(A.obj), 'neg': lambda: A.obj.fp_neg(),
                  'o_neg': lambda: -A.obj, 'sqrt': lambda: A.obj.fp_sqrt(),
                  'rint': lambda: A.obj.fp_round_to_integral()}[name]
            res = fn()
            n = name.split('_')[-1]
            wants = [{'abs': lambda: M.fabs(v), 'neg': lambda: M.neg(v), 'sqrt': lambda: m.norm(m.sqrt(v)),
                      'rint': lambda: m.rint(v)}[n]() for m in models(f)]
            return self.accept(tid, op, slot, res, T, f, wants)
        if name.startswith('is_'):
            res = getattr(A.obj, 'fp_' + name)()
            want = {'is_normal': v[0] == 'fin' and not f.subnormal(v), 'is_subnormal': f.subnormal(v),
                    'is_zero': v[0] == 'zero', 'is_infinite': v[0] == 'inf', 'is_NaN': v == NAN,
                    'is_negative': v[0] in ('fin', 'inf') and bool(v[1]),
                    'is_positive': v[0] in ('fin', 'inf') and not v[1]}[name]
            self.ctx.check(isinstance(res, hw.Bit), 'wrong-type', f'{name} returned {type(res)}', op=op)
            return self.accept_plain(op, bool(res), [want])
        if name == 'bits':
            bv = A.obj.reinterpret_as_bv()
            if self.judge == 'C06':
                self.ctx.check(bv.size == f.size and self.same(f.decode(int(bv)), v), 'wrong-value',
                               f'the bit pattern {bv} is not that of {show(v)}', op=op)
            self.done += 1
            return
        if name == 'frombits':
            with self.ctx.atomic():
                bv = A.obj.reinterpret_as_bv()
            res = T.reinterpret_from_bv(bv)
            return self.accept(tid, op, slot, res, T, f, [f.norm(v)])
        if name == 'float':
            x = float(A.obj)
            if self.judge == 'C06':
                ok = [M.to_float(v, m.mode) for m in models(f)]
                self.ctx.check(any(x.hex() == y.hex() or (x != x and y != y) for y in ok), 'wrong-float',
                               f'float() gives {x!r}, the value is {show(v)}', op=op)
            self.done += 1
            return
        if name == 'repr':
            s = repr(A.obj)
            if self.judge == 'C06':
                with self.ctx.atomic(), gmpy2.local_context(gmpy2.context()):
                    s2 = repr(A.obj)
                self.ctx.check(s == s2, 'wrong-text', f'repr is {s} here and {s2} in a default context', op=op)
            self.done += 1
            return
        raise HarnessError(op)

    def do_conv(self, tid, op):
        _, _, name, a, n = op
        A = self.get(a)
        v = A.v
        call = (lambda: A.obj.to_ubv(n)) if name == 'ubv' else (lambda: A.obj.to_sbv(n))
        if v == NAN or v[0] == 'inf':
            return self.must_fail(op, call, (ValueError, OverflowError))
        res = call()
        # rounded to an integer in the format's own mode
        ts = [m.to_int(v) for m in models(A.f)]
        T = hw.BitVector if name == 'ubv' else hw.SIntVector
        self.ctx.check(type(res) is T[n], 'wrong-type', f'conversion gave {type(res)}', op=op)
        self.accept_plain(op, res.as_uint(), [t % (1 << n) for t in ts])

    def must_fail(self, op, call, exc):
        self.ctx.fault('operation_fails')
        try:
            r = call()
        except exc:
            self.done += 1
            return
        if self.judge == 'C06':
            self.ctx.violation('no-error', f'an operation that must fail returned {r!r}', op=op)

    def do_fail(self, tid, op):
        _, _, kind, a, spec = op
        T = self.type_of(spec)
        f = self.fmt(spec)
        if kind == 'junk':
            return self.must_fail(op, lambda: T('junk'), ValueError)
        if kind == 'nonum':
            return self.must_fail(op, lambda: T([1]), TypeError)
        if kind == 'noattr':
            return self.must_fail(op, lambda: T(1).fp_add(object()), TypeError)
        if kind == 'badbits':
            return self.must_fail(op, lambda: T.reinterpret_from_bv(hw.BitVector[f.size + 1](0)), TypeError)
        if kind == 'int_nan':
            return self.must_fail(op, lambda: T('inf').to_sbv(8), (ValueError, OverflowError))
        if kind == 'badfmt':
            return self.must_fail(op, lambda: hw.FPVector[0, 3, RM.RNE, True], ValueError)
        if kind == 'ctxattr':
            def make():
                class Bad(T):
                    _ctx_ = 5
            self.ctx.fault('operation_fails')
            try:
                make()
            except TypeError:
                pass
            return
        if kind == 'cb_raise':
            return self.must_fail(op, lambda: T(Raises(self.ctx)), HookError)
        if kind == 'mix':
            A = self.get(a)
            if A.f.key() == f.key():
                return
            o = T(1)
            return self.must_fail(op, lambda: A.obj + o, TypeError)
        raise HarnessError(op)

    def do_cb(self, tid, op):
        _, _, slot, spec, lit, spec2, lit2, how, raises = op
        f, T = self.fmt(spec), self.type_of(spec)
        if lit[0] in 'bm':
            lit = ['f', '1.5']
        x, v = self.literal(lit, f)
        if how == 'int':
            if not isinstance(x, int):
                x = 3
            v = M.exact(x)
        else:
            if not isinstance(x, (int, float)):
                x = 0.1
            x = float(x)
            v = M.exact(x)
        cb = Callback(self, tid, op, x, how, spec2, lit2, raises)
        self.ctx.fault('callback_reenters')
        try:
            obj = T(cb)
        except HookError:
            if not raises:
                raise HarnessError('foreign failure')
            return
        self.accept(tid, op, slot, obj, T, f, [m.of(v) for m in models(f)])


class Raises:
    def __init__(self, ctx):
        self.ctx = ctx

    def __float__(self):
        self.ctx.yield_point('cb')
        self.ctx.fault('callback_raises')
        raise HookError('float')


class Callback:
    """A caller's number: computing its value uses other formats."""

    def __new__(cls, work, tid, op, x, how, spec2, lit2, raises):
        def value(self):
            ctx = work.ctx
            ctx.yield_point('cb')
            f, T = work.fmt(spec2), work.type_of(spec2)
            thunk, wants = work.construct(T, f, lit2)
            o = thunk()
            work.accept(tid, op, f'cb{tid}', o, T, f, wants)
            if not (f.ieee and work.h[f'cb{tid}'].v == NAN):
                s = o - o
            ctx.yield_point('cb')
            if raises:
                ctx.fault('callback_raises')
                raise HookError('cb')
            return x
        ns = {'__float__' if how == 'float' else '__int__': value}
        return object.__new__(type('Num', (), ns))


def show(v):
    if v[0] == 'fin':
        n, d = v[2].numerator, v[2].denominator
        t = (n & -n).bit_length() - 1
        return f"{'-' if v[1] else '+'}{n >> t:#x}*2**{t - d.bit_length() + 1}"
    return ''.join(map(str, v))


def run(ctx, plan, judge):
    w = Work(ctx, judge)
    for op in plan.get('setup', ()):
        w.do(-1, op)
    ctx.clients(plan['clients'], w.do)
    w.expect(-1, 'at the end', ['end'])
    ctx.nontrivial = w.done >= 2 and (ctx.k.switches > 0 or bool(ctx.k.faults))
