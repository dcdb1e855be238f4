"""Floating-point arithmetic over exact rationals: the reference model of C06/C07/C12.

Shares nothing with gmpy2/MPFR.  A format is (eb, mb, mode, ieee); a value is
('nan',) | ('inf', s) | ('zero', s) | ('fin', s, q) with s in {0, 1} and q a
positive Fraction.  Rounding mode 'RNA' may be read as "nearest, ties away" or
as "away from zero" (mode 'AWAY'); see known_findings.jsonl.
"""
from fractions import Fraction
from math import isqrt

NAN = ('nan',)


def floor_log2(q):
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    # 2**e <= q ?
    if e >= 0:
        ok = n >= d << e
    else:
        ok = n << -e >= d
    return e if ok else e - 1


def pow2(e):
    return Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)


class Fmt:
    def __init__(self, eb, mb, mode, ieee):
        self.eb, self.mb, self.mode, self.ieee = eb, mb, mode, ieee
        self.bias = (1 << (eb - 1)) - 1
        self.emin = 1 - self.bias
        self.emax = self.bias
        self.size = 1 + eb + mb
        self.minnorm = pow2(self.emin)
        self.max = (2 - pow2(-mb)) * pow2(self.emax)

    def key(self):
        return (self.eb, self.mb, self.mode, self.ieee)

    # -- rounding -----------------------------------------------------------
    def _up(self, s, odd, cmp_half, exact):
        """Round the magnitude up?  cmp_half: remainder compared with half a unit."""
        if exact:
            return False
        m = self.mode
        if m == 'RNE':
            return cmp_half > 0 or (cmp_half == 0 and odd)
        if m == 'RNA':
            return cmp_half >= 0
        if m == 'AWAY':
            return True
        if m == 'RTZ':
            return False
        if m == 'RTP':
            return not s
        if m == 'RTN':
            return bool(s)
        raise AssertionError(m)

    def round(self, s, q):
        """Exact (-1)**s * q, q > 0, into the format."""
        e = floor_log2(q)
        if not self.ieee and e < self.emin:
            # representable neighbours: 0 and the smallest normal number
            half = self.minnorm / 2
            # "ties to even": zero is the even neighbour
            up = self._up(s, False, (q > half) - (q < half), False)
            return ('fin', s, self.minnorm) if up else ('zero', s)
        u = pow2(max(e, self.emin) - self.mb)
        n, r = divmod(q, u)
        n = int(n)
        if self._up(s, n & 1, (2 * r > u) - (2 * r < u), r == 0):
            n += 1
        v = n * u
        if v > self.max:
            # rounded as if the exponent were unbounded, then overflow
            if self.mode in ('RNE', 'RNA', 'AWAY') or (self.mode == 'RTP' and not s) or (self.mode == 'RTN' and s):
                return ('inf', s)
            return ('fin', s, self.max)
        return ('fin', s, v) if v else ('zero', s)

    def norm(self, v):
        """Non-IEEE formats have no NaN: infinity (of either sign) instead."""
        if v == NAN and not self.ieee:
            return ('inf', None)
        return v

    def of(self, v):
        """Any value (of a wider format) into this format."""
        if v[0] == 'fin':
            return self.round(v[1], v[2])
        return self.norm(v)

    # -- bit patterns ---------------------------------------------------------
    def decode(self, p):
        m = p & ((1 << self.mb) - 1)
        e = (p >> self.mb) & ((1 << self.eb) - 1)
        s = p >> (self.size - 1)
        if e == (1 << self.eb) - 1:
            return ('inf', s) if m == 0 else NAN
        if e == 0:
            if m == 0:
                return ('zero', s)
            return ('fin', s, m * pow2(self.emin - self.mb))
        return ('fin', s, ((1 << self.mb) + m) * pow2(e - self.bias - self.mb))

    def from_pattern(self, p):
        """reinterpret_from_bv: flushed formats have neither subnormals nor NaN."""
        v = self.decode(p)
        if not self.ieee:
            if v[0] == 'fin' and v[2] < self.minnorm:
                return ('zero', v[1])
            return self.norm(v)
        return v

    def subnormal(self, v):
        return v[0] == 'fin' and v[2] < self.minnorm

    # -- arithmetic -------------------------------------------------------------
    def _zero_sum(self, sa, sb):
        if sa == sb:
            return ('zero', sa)
        return ('zero', 1 if self.mode == 'RTN' else 0)

    def add(self, a, b):
        if a == NAN or b == NAN:
            return NAN
        if a[0] == 'inf' or b[0] == 'inf':
            if a[0] == b[0]:
                return a if a[1] == b[1] else NAN
            return a if a[0] == 'inf' else b
        x = val(a) + val(b)
        if x == 0:
            return self._zero_sum(a[1], b[1])
        return self.round(int(x < 0), abs(x))

    def sub(self, a, b):
        return self.add(a, neg(b))

    def mul(self, a, b):
        if a == NAN or b == NAN:
            return NAN
        s = a[1] ^ b[1]
        if a[0] == 'inf' or b[0] == 'inf':
            return NAN if 'zero' in (a[0], b[0]) else ('inf', s)
        if 'zero' in (a[0], b[0]):
            return ('zero', s)
        return self.round(s, a[2] * b[2])

    def div(self, a, b):
        if a == NAN or b == NAN:
            return NAN
        s = a[1] ^ b[1]
        if a[0] == 'inf':
            return NAN if b[0] == 'inf' else ('inf', s)
        if b[0] == 'inf':
            return ('zero', s)
        if b[0] == 'zero':
            return NAN if a[0] == 'zero' else ('inf', s)
        if a[0] == 'zero':
            return ('zero', s)
        return self.round(s, a[2] / b[2])

    def fma(self, a, b, c):
        if NAN in (a, b, c):
            return NAN
        s = a[1] ^ b[1]
        if a[0] == 'inf' or b[0] == 'inf':
            if 'zero' in (a[0], b[0]):
                return NAN
            if c[0] == 'inf' and c[1] != s:
                return NAN
            return ('inf', s)
        if c[0] == 'inf':
            return c
        x = val(a) * val(b)
        t = x + val(c)
        if t == 0:
            if x == 0 and c[0] == 'zero':
                return self._zero_sum(s, c[1])
            return self._zero_sum(0, 1)
        return self.round(int(t < 0), abs(t))

    def sqrt(self, a):
        if a == NAN or a[0] == 'zero':
            return a
        if a[1]:
            return NAN
        if a[0] == 'inf':
            return a
        q = a[2]
        # enough bits for any target precision, with a sticky bit
        e = floor_log2(q) // 2
        k = self.mb + 4 - e
        n = q * pow2(2 * k)
        i = n.numerator // n.denominator
        r = isqrt(i)
        root = Fraction(r) * pow2(-k)
        if root * root != q:
            root += pow2(-k - 2)
        return self.round(0, root)

    def rem(self, a, b):
        if a == NAN or b == NAN or a[0] == 'inf' or b[0] == 'zero':
            return NAN
        if b[0] == 'inf' or a[0] == 'zero':
            return a
        x, y = val(a), abs(val(b))
        n = round(x / y)                      # Fraction: half to even
        r = x - n * y
        if r == 0:
            return ('zero', a[1])
        return self.round(int(r < 0), abs(r))

    def _int(self, s, q):
        n, r = divmod(q, 1)
        n = int(n)
        h = Fraction(1, 2)
        if self._up(s, n & 1, (r > h) - (r < h), r == 0):
            n += 1
        return n

    def to_int(self, a):
        if a[0] == 'zero':
            return 0
        n = self._int(a[1], a[2])
        return -n if a[1] else n

    def rint(self, a):
        if a[0] != 'fin':
            return a
        s, q = a[1], a[2]
        n = self._int(s, q)
        return self.round(s, Fraction(n)) if n else ('zero', s)


def val(v):
    if v[0] == 'zero':
        return Fraction(0)
    return -v[2] if v[1] else v[2]


def neg(v):
    if v == NAN:
        return v
    return (v[0], 1 - v[1], *v[2:])


def fabs(v):
    if v == NAN:
        return v
    return (v[0], 0, *v[2:])


def order(a, b):
    """-1, 0, 1 or None (unordered)."""
    if a == NAN or b == NAN:
        return None
    def k(v):
        if v[0] == 'inf':
            return (-1 if v[1] else 1, 0)
        return (0, val(v))
    return (k(a) > k(b)) - (k(a) < k(b))


def fmin(a, b):
    if a == NAN:
        return b
    if b == NAN:
        return a
    o = order(a, b)
    if o == 0:
        return a if a[1] >= b[1] else b
    return a if o < 0 else b


def fmax(a, b):
    if a == NAN:
        return b
    if b == NAN:
        return a
    o = order(a, b)
    if o == 0:
        return a if a[1] <= b[1] else b
    return a if o > 0 else b


def exact(x):
    """The value of a Python int, float or Fraction."""
    import math
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        s = int(math.copysign(1, x) < 0)
        if math.isinf(x):
            return ('inf', s)
        if x == 0:
            return ('zero', s)
        return ('fin', s, abs(Fraction(x)))
    q = Fraction(x)
    if q == 0:
        return ('zero', 0)
    return ('fin', int(q < 0), abs(q))


def to_float(v, mode):
    """Conversion to a double in the given rounding mode."""
    import math
    d = Fmt(11, 52, mode, True).of(v)
    if d == NAN:
        return math.nan
    if d[0] == 'inf':
        return -math.inf if d[1] else math.inf
    if d[0] == 'zero':
        return -0.0 if d[1] else 0.0
    return float(val(d))
