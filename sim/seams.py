"""Every source of nondeterminism hwtypes can meet, put behind the simulator.

install() must run before hwtypes is imported.  Nothing in /repo is changed and
nothing depends on hwtypes' private names: locks, hashing, randomness and
warnings are replaced at the interpreter modules hwtypes uses, and preemption
points come from the interpreter's monitoring of hwtypes' code objects.
"""
import _thread
import abc
import builtins
import gc
import os
import random
import sys
import threading
import types
import warnings
import weakref

from . import kernel as K

REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------- locks ----
class SimLock:
    """threading.Lock under the simulated scheduler (plain lock outside a run)."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        k = K.CURRENT
        if k is not None and k.cur is not None:
            k.event('lock')
        while self._count and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if k is None or k.cur is None:
                raise RuntimeError('simulated lock blocks outside a run')
            if not k.block_on(self, timeout is not None and timeout >= 0):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        if self._reentrant and self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            k = K.CURRENT
            if k is not None and k.cur is not None:
                k.wake(self)
                k.event('unlock')

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    # used by threading.Condition
    def _is_owned(self):
        return bool(self._count) and self._owner == self._me()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count = 1
        self.release()
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count, self._owner = s


# -------------------------------------------------------------- hashing ----
class Hashes:
    """Identity hashes of hwtypes' classes: salted creation counter.

    Real identity hashes come from object addresses.  Here the n-th class that
    is hashed gets hash mix(salt, n), so set order is a function of the seed.
    """

    def __init__(self):
        self.salt = 0
        self.n = 0
        self.table = {}

    def of(self, cls):
        i = id(cls)
        e = self.table.get(i)
        if e is not None and e[0]() is cls:
            return e[1]
        self.n += 1
        h = K.seed_of('hash', self.salt, self.n) >> 4
        self.table[i] = (weakref_ref(cls), h)
        return h


weakref_ref = weakref.ref
HASHES = Hashes()


def _class_hash(cls):
    return HASHES.of(cls)


class LeafMeta(type):
    """Metaclass of harness-defined plain leaf types (salted hash as well)."""
    __hash__ = _class_hash


def _abc_hash(cls):
    # every ABC made after install(); the earlier ones keep their identity hash.
    # (Not by __module__: that changes while hwtypes builds a class.)
    if id(cls) in _pre_abcs:
        return type.__hash__(cls)
    return HASHES.of(cls)


_pre_abcs = {}          # id -> class (kept alive so that no id is used again)


# ----------------------------------------------------------- randomness ----
class SimRandom(random.Random):
    """The generator behind module `random`; can return adversarial bursts."""
    burst = None            # list of pending patterns
    draws = 0

    def getrandbits(self, k):
        self.draws += 1
        r = super().getrandbits(k)
        b = self.burst
        if b:
            p = b.pop()
            if p == 1:
                return (1 << k) - 1
            if p == 0:
                return 0
        return r

    def random(self):
        self.draws += 1
        r = super().random()
        b = self.burst
        if b:
            p = b.pop()
            if p == 1:
                return 1.0 - 2.0 ** -53
            if p == 0:
                return 0.0
        return r


RANDOM = None
_RANDOM_NAMES = ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice',
                 'randrange', 'sample', 'shuffle', 'choices', 'normalvariate',
                 'lognormvariate', 'expovariate', 'vonmisesvariate',
                 'gammavariate', 'gauss', 'betavariate', 'binomialvariate',
                 'paretovariate', 'weibullvariate', 'getstate', 'setstate',
                 'getrandbits', 'randbytes')


def _install_random(seed):
    global RANDOM
    RANDOM = SimRandom(seed)
    random._inst = RANDOM
    for n in _RANDOM_NAMES:
        if hasattr(RANDOM, n):
            setattr(random, n, getattr(RANDOM, n))


# ------------------------------------------------------------ monitoring ----
TOOL = 3
_codes = []


def _collect_codes(prefixes, files):
    seen = {}

    def add(code):
        if id(code) in seen:
            return
        f = code.co_filename
        if f.startswith(prefixes) or f in files:
            seen[id(code)] = code
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    add(c)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
        elif isinstance(o, types.CodeType):
            add(o)
    return list(seen.values())


def _short(code):
    return f'{os.path.basename(code.co_filename)}:{code.co_qualname}'


def _on_line(code, line):
    k = K.CURRENT
    if k is not None and k.cur is not None:
        k.event(f'{_short(code)}:{line}')


def _on_instr(code, off):
    k = K.CURRENT
    if k is not None and k.cur is not None:
        k.event(f'{_short(code)}+{off}')


def instrument(granularity):
    """granularity: 'line' | 'instr' | 'none'"""
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'hwtypes-sim')
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instr)
    ev = {'line': m.events.LINE, 'instr': m.events.INSTRUCTION, 'none': 0}[granularity]
    for c in _codes:
        m.set_local_events(TOOL, c, ev)


# --------------------------------------------------------------- install ----
def install(salt):
    """Called once in a fresh interpreter, before hwtypes is imported."""
    sys.dont_write_bytecode = True
    gc.disable()
    HASHES.salt = salt
    _install_random(K.seed_of('random', salt))

    # locks
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock

    # third party code is imported before hwtypes: it keeps identity hashes
    import collections.abc, typing, enum, inspect, functools     # noqa
    import gmpy2, pysmt, pysmt.shortcuts, z3                      # noqa
    for o in gc.get_objects():
        if isinstance(o, abc.ABCMeta):
            _pre_abcs[id(o)] = o
    abc.ABCMeta.__hash__ = _abc_hash

    # hwtypes' metaclasses get the salted hash the moment they are created, so
    # that no class is ever hashed by address
    build = builtins.__build_class__

    def build_class(*args, **kwargs):
        cls = build(*args, **kwargs)
        if isinstance(cls, type) and issubclass(cls, type) \
                and cls.__module__.split('.')[0] == 'hwtypes' \
                and cls.__hash__ in (type.__hash__, _abc_hash) and cls.__eq__ is type.__eq__:
            cls.__hash__ = _class_hash
        return cls
    builtins.__build_class__ = build_class

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hwtypes
        import hwtypes.adt_util
        import hwtypes.modifiers
        import hwtypes.smt_utils
        import hwtypes.z3_bit_vector
    finally:
        builtins.__build_class__ = build
    f = os.path.realpath(hwtypes.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'hwtypes imported from {f}, not from {REPO}')
    return hwtypes


def finish_install():
    """After the property modules are imported."""
    prefix = os.path.join(os.path.realpath(REPO), 'hwtypes') + os.sep
    files = {weakref.__file__}
    import _weakrefset
    files.add(_weakrefset.__file__)
    _codes.extend(_collect_codes((prefix, os.path.join(REPO, 'hwtypes') + os.sep), files))
    gc.collect()
    gc.freeze()
