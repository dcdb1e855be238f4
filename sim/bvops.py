"""Bit-vector operations of the three families and their integer meaning.

An operation is a JSON list [name, *ints].  Operands are values of one family,
one width (unless the operation says otherwise).  A model value is
(kind, width, int): kind 'B' (plain), 'U', 'S' (signed) or 'bit' (width 0).
"""
import operator

import pysmt.shortcuts as smt
import z3

from .typespec import HarnessError

UN = ['bvnot', 'bvneg', '~', 'neg']
ARITH = ['bvand', 'bvor', 'bvxor', 'bvnand', 'bvnor', 'bvxnor', 'bvadd', 'bvsub', 'bvmul', 'bvudiv', 'bvurem',
         'bvshl', 'bvlshr', 'bvashr', '+', '-', '*', '&', '|', '^', '<<', '>>', 'floordiv', 'mod', 'bvsdiv', 'bvsrem']
CMP = ['bveq', 'bvne', 'bvult', 'bvule', 'bvugt', 'bvuge', 'bvslt', 'bvsle', 'bvsgt', 'bvsge', '==', '!=', '<', '<=', '>', '>=']
OPER = {'+': operator.add, '-': operator.sub, '*': operator.mul, '&': operator.and_, '|': operator.or_, '^': operator.xor,
        '<<': operator.lshift, '>>': operator.rshift, 'floordiv': operator.floordiv, 'mod': operator.mod,
        '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
IOPER = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '&': operator.iand, '|': operator.ior,
         '^': operator.ixor, '<<': operator.ilshift, '>>': operator.irshift, 'floordiv': operator.ifloordiv,
         'mod': operator.imod}
OTHER = ['lit+', 'lit-', 'lit&', 'radd', 'rsub', 'rand', 'concat', 'zext', 'sext', 'ext', 'repeat', 'bit', 'slice', 'adc',
         'bvcomp', 'ite', 'bvite', 'rol', 'ror', 'copy', 'conv', 'const', 'constv', 'all',
         'concat0', 'ites', 'polyite']


class Fam:
    def __init__(self, hw, name):
        self.name = name
        self.hw = hw
        if name == 'py':
            self.Bit, self.T = hw.Bit, {'B': hw.BitVector, 'U': hw.UIntVector, 'S': hw.SIntVector}
        elif name == 'smt':
            m = hw.smt_bit_vector
            self.Bit, self.T = m.SMTBit, {'B': m.SMTBitVector, 'U': m.SMTUIntVector, 'S': m.SMTSIntVector}
        else:
            m = hw.z3_bit_vector
            self.Bit, self.T = m.z3Bit, {'B': m.z3BitVector, 'U': m.z3UIntVector, 'S': m.z3SIntVector}

    def make(self, m):
        kind, w, v = m
        if kind == 'bit':
            return self.Bit(bool(v))
        return self.T[kind][w](v)

    def read(self, x):
        """The constant x holds, or None when it isn't one."""
        if isinstance(x, self.hw.AbstractBit):
            if self.name == 'py':
                return int(bool(x))
            if self.name == 'smt':
                c = smt.simplify(x.value)
                return int(c.constant_value()) if c.is_constant() else None
            c = z3.simplify(x.value)
            return 1 if z3.is_true(c) else 0 if z3.is_false(c) else None
        if self.name == 'py':
            return x.as_uint()
        if self.name == 'smt':
            c = smt.simplify(x.value)
            return int(c.constant_value()) if c.is_constant() else None
        c = z3.simplify(x.value)
        return c.as_long() if z3.is_bv_value(c) else None

    def is_type(self, x, m, exact=True):
        kind, w, _ = m
        if kind == 'bit':
            return isinstance(x, self.Bit)
        T = self.T[kind][w]
        return type(x) is T if exact else isinstance(x, T)


def gen_op(r, fam):
    """A random operation (parameters are reduced modulo what fits later)."""
    x = r.random()
    if x < .10:
        return [r.choice(UN)]
    if x < .45:
        return [r.choice(ARITH)]
    if x < .62:
        return [r.choice(CMP)]
    while True:
        o = r.choice(OTHER)
        if offered(o, fam):
            return [o, r.choice([0, r.randrange(64)]), r.choice([63, r.randrange(64)])]


def offered(o, fam):
    if o in ('repeat', 'concat0'):
        return fam == 'py'          # no width 0, wrong result type in the symbolic families
    return fam != 'z3' or o not in ('radd', 'rsub', 'rand', 'polyite', 'ites')


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def fits(op, fam, a, b):
    """Is the operation defined (and cheap) on these operands?"""
    o = op[0]
    w = a[1]
    if o in ('bvshl', 'bvlshr', 'bvashr', '<<', '>>'):
        return b[2] < 300
    if o in ('bvsdiv', 'bvsrem') or o in ('floordiv', 'mod') and a[0] == 'S':
        # rounding of mixed signs differs between the families (N02)
        return w > 1 and not a[2] >> (w - 1) and not b[2] >> (w - 1) and b[2] != 0
    if o == 'concat':
        return a[0] == b[0] or fam == 'py' and a[0] == 'B'
    return True


def params(op, a):
    """Parameters of op reduced to what fits the first operand."""
    o, w = op[0], a[1]
    p, q = (op[1:] + [0, 0])[:2]
    if o in ('zext', 'ext'):
        return [p % 5 if o == 'zext' else 1 + p % 4]
    if o == 'sext':
        return [1 + p % 4]
    if o == 'repeat':
        return [1 + p % 3]
    if o == 'bit':
        return [p % w - (w if q % 3 == 0 else 0)]
    if o == 'slice':
        i, j = sorted((p % w, q % w))
        return [i, j + 1]
    if o in ('rol', 'ror'):
        return [p % w]
    if o in ('lit+', 'lit-', 'lit&', 'radd', 'rsub', 'rand', 'const'):
        return [p % (1 << w)]
    return [p, q]


def result_model(op, fam, a, b, c):
    """Model of the result: one model value or a list of them.

    a, b: operands; c: a bit."""
    o = op[0]
    k, w, x = a
    y = b[2] if b is not None else 0
    M = 1 << w

    def bv(v):
        return (k, w, v % M)

    def bit(v):
        return ('bit', 0, int(bool(v)))
    p = params(op, a)
    S = k == 'S'
    if o in ('bvnot', '~'):
        return bv(~x)
    if o in ('bvneg', 'neg'):
        return bv(-x)
    if o in ('bvand', '&'):
        return bv(x & y)
    if o in ('bvor', '|'):
        return bv(x | y)
    if o in ('bvxor', '^'):
        return bv(x ^ y)
    if o == 'bvnand':
        return bv(~(x & y))
    if o == 'bvnor':
        return bv(~(x | y))
    if o == 'bvxnor':
        return bv(~(x ^ y))
    if o in ('bvadd', '+'):
        return bv(x + y)
    if o in ('bvsub', '-'):
        return bv(x - y)
    if o in ('bvmul', '*'):
        return bv(x * y)
    if o in ('bvshl', '<<'):
        return bv(x << y)
    if o == 'bvlshr' or o == '>>' and not S:
        return bv(x >> y)
    if o in ('bvashr', '>>'):
        return bv(signed(x, w) >> y)
    if o in ('bvudiv', 'bvsdiv', 'floordiv'):
        return bv(x // y if y else M - 1)
    if o in ('bvurem', 'bvsrem', 'mod'):
        return bv(x % y if y else x)
    if o in CMP:
        if o in ('bveq', '=='):
            return bit(x == y)
        if o in ('bvne', '!='):
            return bit(x != y)
        sg = o.startswith('bvs') or S and not o.startswith('bv')
        u, v = (signed(x, w), signed(y, w)) if sg else (x, y)
        f = o[3:] if o.startswith('bv') else {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[o]
        return bit({'lt': u < v, 'le': u <= v, 'gt': u > v, 'ge': u >= v}[f])
    if o in ('lit+', 'radd'):
        return bv(x + p[0])
    if o == 'lit-':
        return bv(x - p[0])
    if o == 'rsub':
        return bv(p[0] - x)
    if o in ('lit&', 'rand'):
        return bv(x & p[0])
    if o == 'concat':
        return (k, w + b[1], x | y << w)
    if o == 'zext' or o == 'ext' and not (S and fam != 'z3'):
        return (k, w + p[0], x)
    if o in ('sext', 'ext'):
        return (k, w + p[0], signed(x, w) % (1 << w + p[0]))
    if o == 'repeat':
        v = 0
        for i in range(p[0]):
            v |= x << i * w
        return (k, w * p[0], v)
    if o == 'bit':
        return bit(x >> (p[0] % w) & 1)
    if o == 'slice':
        i, j = p
        return (k, j - i, x >> i & ((1 << j - i) - 1))
    if o == 'adc':
        s = x + y + c[2]
        return [(k, w, s % M), bit(s >> w)]
    if o == 'bvcomp':
        return (k, 1, int(x == y))
    if o == 'ite':
        return a if c[2] else b
    if o == 'ites':
        return [a, b] if c[2] else [b, a]
    if o == 'bvite':
        return b if x else bv(0)
    if o == 'polyite':
        # different type of the same size: the branch decides the behaviour
        k2 = 'U' if k == 'S' else 'S'
        z = x if c[2] else y
        u, v = (signed(z, w), signed(y, w)) if (k if c[2] else k2) == 'S' else (z, y)
        return [bit(u < v), ('poly', w, z)]
    if o == 'rol':
        return bv(x << p[0] | x >> (w - p[0]))
    if o == 'ror':
        return bv(x >> p[0] | x << (w - p[0]))
    if o in ('copy', 'constv', 'all', 'concat0'):
        return a
    if o == 'conv':
        return ('BUS'[p[0] % 3], w, x)
    if o == 'const':
        return (k, w, p[0])
    raise HarnessError(op)


def perform(op, F, a, b, c, ma):
    """The real operation (ma: model of a)."""
    o = op[0]
    p = params(op, ma)
    if o in OPER:
        return OPER[o](a, b)
    if o == '~':
        return ~a
    if o == 'neg':
        return -a
    if o in ('bvnot', 'bvneg'):
        return getattr(a, o)()
    if o == 'lit+':
        return a + p[0]
    if o == 'lit-':
        return a - p[0]
    if o == 'lit&':
        return a & p[0]
    if o == 'radd':
        return p[0] + a
    if o == 'rsub':
        return p[0] - a
    if o == 'rand':
        return p[0] & a
    if o in ('zext', 'sext', 'ext', 'repeat'):
        return getattr(a, o)(p[0])
    if o == 'rol':
        return a.bvrol(p[0])
    if o == 'ror':
        return a.bvror(p[0])
    if o == 'bit':
        return a[p[0]]
    if o == 'slice':
        return a[p[0]:p[1]]
    if o == 'adc':
        return list(a.adc(b, c))
    if o == 'ite':
        return c.ite(a, b)
    if o == 'ites':
        return list(c.ite((a, b), (b, a)))
    if o == 'bvite':
        return a.ite(b, type(b)(0))
    if o == 'polyite':
        k, w, _ = ma
        k2 = 'U' if k == 'S' else 'S'
        v = c.ite(a, F.T[k2][w](b))
        return [v < b, v]
    if o == 'copy':
        return type(a)(a)
    if o == 'conv':
        return F.T['BUS'[p[0] % 3]][a.size](a)
    if o == 'constv':
        return a.make_constant(a)
    if o == 'all':
        return a[:]
    if o == 'concat0':
        e = F.T[ma[0]][0]()
        return e.concat(a) if op[1] % 2 else a.concat(e)
    if o == 'const':
        return a.make_constant(p[0])
    return getattr(a, o)(b)         # concat, bvcomp and the bv* methods
