"""Small values of any request's type, used by several workloads."""
from .typespec import HarnessError


class NoValue(Exception):
    """This type has no values the harness can make."""


def default(hw, t, n=0):
    """A value of type t; n selects among a few."""
    if t in (int,):
        return n
    if t is str:
        return 'x' * n
    if t is bytes:
        return b'y' * n
    if issubclass(t, hw.AbstractBit):
        if t is hw.AbstractBit:
            raise NoValue(t)
        return t(n & 1)
    if issubclass(t, hw.AbstractBitVector):
        if t.size is None or t.get_family() is hw.AbstractBitVector.get_family() or t.size == 0:
            raise NoValue(t)
        return t(n % (1 << t.size))
    if issubclass(t, hw.FPVector):
        if not t.is_bound:
            raise NoValue(t)
        return t(float(n))
    if issubclass(t, hw.SMTFPVector):
        if not t.is_bound:
            raise NoValue(t)
        return t(n % 2)
    if issubclass(t, hw.AbstractFPVector):
        raise NoValue(t)
    if hw.is_adt_type(t):
        if not t.is_bound:
            raise NoValue(t)
        if issubclass(t, hw.Enum):
            f = sorted(t.field_dict)
            return getattr(t, f[n % len(f)])
        if issubclass(t, hw.TaggedUnion):
            f = sorted(t.field_dict)
            k = f[n % len(f)]
            return t(**{k: default(hw, t.field_dict[k], n)})
        if issubclass(t, hw.Sum):
            f = sorted(t.fields, key=lambda x: x.__name__)
            return t(default(hw, f[n % len(f)], n))
        return t(*(default(hw, f, n + i) for i, f in enumerate(t.fields)))
    return t()
