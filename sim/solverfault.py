"""The solver libraries' functions can be armed to fail (out of memory)."""
import pysmt.fnode
import pysmt.shortcuts
import z3


class Backend:
    armed = None            # [tid, calls left]
    ctx = None

    def call(self, fn, a, k):
        ctx = self.ctx
        if ctx is not None and self.armed is not None:
            tid = ctx.k.cur.tid if ctx.k.cur is not None else -1
            if self.armed[0] == tid:
                if self.armed[1] <= 0:
                    self.armed = None
                    ctx.fault('solver_fails')
                    raise MemoryError('armed solver failure')
                self.armed[1] -= 1
        return fn(*a, **k)

    def disarm(self, tid):
        if self.armed is not None and self.armed[0] == tid:
            self.armed = None


BACKEND = Backend()
_done = []


def _wrap(obj, names):
    for n in names:
        fn = getattr(obj, n)

        def w(*a, _fn=fn, **k):
            return BACKEND.call(_fn, a, k)
        setattr(obj, n, w)


def prepare():
    if _done:
        return
    _done.append(1)
    _wrap(pysmt.shortcuts, ['BVOr', 'BVAnd', 'BVNot', 'BVXor', 'Ite', 'simplify', 'BV', 'Bool', 'BVConcat', 'BVExtract',
                            'BVLShl', 'BVAdd', 'Symbol', 'FreshSymbol'])
    _wrap(pysmt.fnode.FNode, ['__call__'])
    _wrap(z3, ['If', 'BitVecVal', 'BoolVal', 'Concat', 'Extract', 'simplify'])
    _wrap(z3.BitVecRef, ['__or__', '__and__', '__invert__', '__xor__', '__add__', '__lshift__'])
