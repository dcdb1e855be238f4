"""Ask a value, a type or a module of hwtypes anything its public surface offers.

What is asked is found in the objects themselves (dir), so no operation is
left out because a list forgot it.  Refusals of any kind are fine; callers
judge what is left behind, not the answers.
"""
import inspect
import itertools

from . import kernel as K
from .typespec import HarnessError

DUNDERS = {f'__{n}__' for n in (
    'eq ne lt le gt ge and or xor invert neg abs add sub mul truediv floordiv mod lshift rshift '
    'rand ror rxor radd rsub rmul rfloordiv rmod rlshift rtruediv hash repr str bool int float index len getitem '
    'iter contains instancecheck subclasscheck').split()}
# change the object, or other things than it
WRITES = {'mro', 'register', '__init_subclass__'}


def names(T):
    return [n for n in sorted(dir(T)) if n not in WRITES and (n in DUNDERS or not n.startswith('_'))]


def ask(obj, name, args):
    """obj.name(*args); what came out (None if refused)."""
    try:
        a = getattr(obj, name)
        if callable(a) and not isinstance(a, type) and not (isinstance(obj, type) and not inspect.ismethod(a)):
            a = a(*args)
        if hasattr(a, '__next__'):
            a = list(itertools.islice(a, 4))
        return a
    except (K.Violation, HarnessError, MemoryError, RecursionError):
        raise
    except Exception:
        return None


def arguments(r, cands):
    return [r.choice(cands) for _ in range(r.choice([0, 0, 1, 1, 1, 2]))]


def value(r, v, cands, n):
    """n questions to a value; the answers."""
    # names of the instance's class; a class attribute may need the instance
    every = names(type(v))
    return [ask(v, r.choice(every), arguments(r, [v] + cands)) for _ in range(n)]


def of_type(r, t, cands, n):
    every = sorted(set(names(type(t))) - {'__call__'})
    out = []
    for _ in range(n):
        name, args = r.choice(every), arguments(r, cands)
        try:
            a = getattr(t, name)
            if callable(a) and not isinstance(a, type):
                a = a(*args)
            if hasattr(a, '__next__'):
                a = list(itertools.islice(a, 4))
            out.append(a)
        except (K.Violation, HarnessError, MemoryError, RecursionError):
            raise
        except Exception:
            pass
    return out


def of_module(r, m, cands, n):
    fs = [k for k, f in sorted(vars(m).items())
          if inspect.isfunction(f) and f.__module__ == m.__name__ and not k.startswith('_')]
    return [ask(m, r.choice(fs), arguments(r, cands)) for _ in range(n)] if fs else []
