"""Ordinary use of the library's other features: background work and history.

busy(hw, n) performs one piece of work chosen by the integer n.  The work is a
pure function of n and draws nothing from module random.  Some of it fails; the
library's own error is swallowed.
"""

def _bv(hw, n):
    w = 1 + n % 19
    T = (hw.BitVector, hw.SIntVector, hw.UIntVector)[n % 3][w]
    a, b = T(n % (1 << w)), T((n * 7 + 3) % (1 << w))
    return a + b, a * b, a << b, a.concat(b), a[0], ~a, a == b, a.zext(3), a.bvrol(b), a.repeat(2), a.bvurem(b)


def _fp(hw, n):
    RM = hw.fp_vector_abc.RoundingMode
    T = hw.FPVector[(8, 5, 11, 4)[n % 4], (7, 10, 52, 3)[n % 4], (RM.RNE, RM.RTZ, RM.RTP)[n % 3], n % 5 != 0]
    a, b = T(n / 7), T('0.1')
    return a + b, a / b, a.fp_sqrt(), a.fp_fma(b, b), a.reinterpret_as_bv(), a > b, float(a)


def _fp_fail(hw, n):
    RM = hw.fp_vector_abc.RoundingMode
    T = hw.FPVector[5, 3 + n % 9, RM.RNE, True]
    return T('nan').to_ubv(4)


def _adt(hw, n):
    A, B = hw.BitVector[1 + n % 5], hw.Bit
    S = hw.Sum[A, B]
    P = hw.Product.from_fields('W', {'x': A, 'y': S})
    T = hw.Tuple[A, S]
    v = P(A(1), S(B(n & 1)))
    U = hw.TaggedUnion.from_fields('U', {'a': A, 'b': T})
    u = U(b=T(A(0), S(A(1))))
    return v == v, v.value_dict, u.b.match, hash(v), S(A(1))[A].value, P.from_values(v.value_dict)


def _adt_fail(hw, n):
    T = hw.Tuple[hw.Bit, hw.BitVector[1 + n % 9]]
    return T(hw.Bit(1), 5, 6)


def _enum(hw, n):
    E = hw.Enum.from_fields('En', {'a': n % 3, 'b': 7})
    return list(E.enumerate()), hw.Tuple[E, hw.Bit].enumerate()


def _smt(hw, n):
    x, y = hw.SMTBitVector[1 + n % 9](), hw.SMTBitVector[1 + n % 9](prefix='w')
    return x + y, (x == y).ite(x, y), hw.SMTBit() & hw.SMTBit(1)


def _z3(hw, n):
    x, y = hw.z3BitVector[1 + n % 9](), hw.z3BitVector[1 + n % 9](3)
    return x * y, hw.z3Bit() | hw.z3Bit(0)


def _smtfp(hw, n):
    RM = hw.fp_vector_abc.RoundingMode
    F = hw.SMTFPVector[4, 2 + n % 4, RM.RNE, True]
    x, y = F(), F()
    return x + y, x.fp_sqrt(), x.to_ubv(3 + n % 3), x <= y


def _ite(hw, n):
    A, B = hw.BitVector[4 + n % 3], hw.SIntVector[4 + n % 3]
    v = hw.Bit(n & 1).ite(A(3), B(1))
    P = (hw.Bit(1), A(2))
    w = hw.Bit(0).ite(P, (hw.Bit(0), B(1)))
    return v + A(1), w


def _mod(hw, n):
    M = hw.modifiers.make_modifier('Mo')
    A = M(hw.BitVector[1 + n % 6])
    return isinstance(A(1), M), hw.modifiers.unwrap_modifier(A)


def _rebind(hw, n):
    A, B = hw.BitVector[1 + n % 6], hw.SMTBitVector[1 + n % 6]
    T = hw.Tuple[A, hw.Bit]
    return T.rebind(A, B), hw.Sum[A, hw.Bit].rebind(A, B)


def _formula(hw, n):
    f = hw.smt_utils
    x, y = hw.SMTBit(), hw.SMTBit()
    return f.And([x, f.Or([y, ~x])]).to_hwtypes()


def _bv_fail(hw, n):
    return hw.BitVector[4](1) + hw.BitVector[5 + n % 3](1)


def _bad_type(hw, n):
    return hw.BitVector[-1 - n]


WORK = [_bv, _fp, _fp_fail, _adt, _adt_fail, _enum, _smt, _z3, _smtfp, _ite, _mod, _rebind, _formula, _bv_fail,
        _bad_type]


def busy(hw, n):
    """Returns the name of the work and what it gave ('ok' or the error's name)."""
    f = WORK[n % len(WORK)]
    try:
        f(hw, n // len(WORK))
    except (hw.InconsistentSizeError, TypeError, ValueError, OverflowError, IndexError) as e:
        return f.__name__, type(e).__name__
    return f.__name__, 'ok'

