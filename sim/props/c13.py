"""C13: symbolic floating-point operations map to stable functions."""
import operator
import warnings

import pysmt.shortcuts as smt
from pysmt.typing import BOOL, BVType

from .. import busy, solverfault
from ..solverfault import BACKEND
from ..typespec import HarnessError
from . import c01

ID = 'C13'
hw = None


def prepare():
    global hw
    import hwtypes
    hw = hwtypes
    warnings.simplefilter('ignore')
    solverfault.prepare()


# name -> (arity, result: 'fp' or 'bit', the same through an operator)
OPS = {'fp_abs': (1, 'fp', operator.abs), 'fp_neg': (1, 'fp', operator.neg), 'fp_add': (2, 'fp', operator.add),
       'fp_sub': (2, 'fp', operator.sub), 'fp_mul': (2, 'fp', operator.mul), 'fp_div': (2, 'fp', operator.truediv),
       'fp_fma': (3, 'fp', None), 'fp_sqrt': (1, 'fp', None), 'fp_rem': (2, 'fp', operator.mod),
       'fp_round_to_integral': (1, 'fp', None), 'fp_min': (2, 'fp', None), 'fp_max': (2, 'fp', None),
       'fp_leq': (2, 'bit', operator.le), 'fp_lt': (2, 'bit', operator.lt), 'fp_geq': (2, 'bit', operator.ge),
       'fp_gt': (2, 'bit', operator.gt), 'fp_eq': (2, 'bit', operator.eq), 'fp_is_normal': (1, 'bit', None),
       'fp_is_subnormal': (1, 'bit', None), 'fp_is_zero': (1, 'bit', None), 'fp_is_infinite': (1, 'bit', None),
       'fp_is_NaN': (1, 'bit', None), 'fp_is_negative': (1, 'bit', None), 'fp_is_positive': (1, 'bit', None)}
FORMATS = [[3, 4], [4, 3], [2, 5], [5, 2], [8, 7], [8, 23], [5, 10], [2, 2], [11, 52], [7, 8], [1, 14], [11, 1], [1, 11]]
MODES = ['RNE', 'RNA', 'RTP', 'RTN', 'RTZ']


def gen_fmt(r, near=None):
    if near is not None and r.random() < .7:
        f = list(near)
        x = r.randrange(4)
        if x == 0:
            f[0], f[1] = f[1], f[0]
        elif x == 1:
            f[2] = r.choice(MODES)
        elif x == 2:
            f[3] = not f[3]
        else:
            f[0], f[1] = (f[0] + 1, f[1] - 1) if f[1] > 1 else (f[0] - 1, f[1] + 1)
        if f[0] >= 1:
            return f
    return [*r.choice(FORMATS), r.choice(MODES), r.random() < .5]


def generate(r, tier):
    nc = r.choice([1, 2, 2, 3, 4])
    fmts = [gen_fmt(r)]
    for _ in range(r.randint(0, 3)):
        fmts.append(gen_fmt(r, r.choice(fmts)))
    if r.random() < .3:
        # the format of a user's class
        fmts = [f + [r.choice(['F', 'F', 'G', 'new'])] if r.random() < .7 else f for f in fmts]
    names = r.sample(sorted(OPS), r.randint(1, 6))
    sizes = r.sample([1, 2, 7, 8, 16, 33], r.randint(1, 3))
    common = r.random() < .5        # clients share operands
    focus = r.random() if r.random() < .3 else None
    clients = []
    for c in range(nc):
        ops = []
        for j in range(r.randint(4, 22 if nc == 1 else 12)):
            oid = f'c{c}.{j}'
            x = r.random()
            f = r.randrange(len(fmts))
            h = [f'c{c}h{r.randrange(3)}'] + [f'{"g" if common and r.random() < .6 else f"c{c}"}h{r.randrange(3)}'
                                              for _ in range(3)]
            if focus is not None and r.random() < .8:
                x, f = focus, 0
            opt = {'solver': r.randrange(30 if r.random() < .5 else 4)} if r.random() < .08 else {}
            if r.random() < .15:
                opt['thunk'] = r.choice(['gc', 'work', 'yield'])
            if x < .18:
                ops.append([oid, 'value', h[0], f, r.choice(['sym', 'named', 'int', 'int', 'bv', 'shared']), r.getrandbits(70)])
            elif x < .55:
                ops.append([oid, 'op', h[0], f, r.choice(names), h[1:], r.random() < .4, opt])
            elif x < .75:
                ops.append([oid, 'conv', f, r.choice(['to_ubv', 'to_sbv']), r.choice(sizes), h[1], opt])
            elif x < .87:
                ops.append([oid, 'again', r.randrange(1000), opt])
            elif x < .91:
                ops.append([oid, 'ne', f, h[1:3], opt])
            elif x < .95:
                ops.append([oid, 'drop', f])
            elif x < .98:
                ops.append([oid, 'collect'])
            else:
                ops.append([oid, 'work', r.randrange(3000)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'fmts': fmts, 'clients': clients}


def run(ctx, plan):
    BACKEND.ctx = ctx
    slots = {}          # slot -> (format index, value)
    functions = {}      # (format, operation, size) -> function symbol
    owner = {}          # function symbol -> the same key
    terms = {}          # (format, operation, size, operands) -> term
    history = []        # keys of terms in order
    n_ops = [0]
    named = [0]
    fmts = [tuple(f) for f in plan['fmts']]
    mine = {}           # format of a user's class -> the class

    def type_of(f):
        eb, mb, mode, ieee, *own = fmts[f]
        if own and fmts[f] in mine:
            return mine[fmts[f]]
        T = hw.SMTFPVector[eb, mb, getattr(hw.fp_vector_abc.RoundingMode, mode), ieee]
        if own:
            if own[0] == 'new':
                T = hw.modifiers.new(T, name='F')
            else:
                T = type(T)(own[0], (T,), {'__module__': __name__})
            T = mine.setdefault(fmts[f], T)
        return T

    def term(x):
        if isinstance(x, hw.SMTFPVector):
            x = x.reinterpret_as_bv()
        return smt.simplify(x.value)

    def from_term(f, t):
        T = type_of(f)
        return T.reinterpret_from_bv(hw.SMTBitVector[T.size](t))

    def operand(slot, f):
        """A value of format f (the client's own when it has one)."""
        h = slots.get(slot)
        if h is not None and fmts[h[0]] == fmts[f]:
            return h[1]
        T = type_of(f)
        v = T(int(slot[-1]) * 3 % (1 << T.size))
        slots[slot] = (f, v)
        return v

    def check(f, name, size, args, res, op, T=None):
        """res: result of operation `name` of format f on args (terms)."""
        eb, mb = fmts[f][:2]
        n = 1 + eb + mb
        with ctx.atomic():
            t = term(res)
            if name in ('to_ubv', 'to_sbv'):
                want, sort = hw.SMTBitVector[size], BVType(size)
            elif OPS[name][1] == 'bit':
                want, sort = hw.SMTBit, BOOL
            else:
                want, sort = T, BVType(n)
            ctx.check(type(res) is want, 'result-type', f'{name} of {fmts[f]} returned a {type(res)}, not {want}', op=op)
            ctx.check(t.is_function_application(), 'not-a-function', f'{name} of {fmts[f]} yields {t}', op=op)
            fn = t.function_name()
            ctx.check(tuple(t.args()) == tuple(args), 'operands',
                      f'{name} of {fmts[f]} on {args} is a term over {t.args()}', op=op)
            ft = fn.symbol_type()
            ctx.check(ft.return_type == sort and tuple(ft.param_types) == (BVType(n),) * len(args), 'sort',
                      f'the function of {name} of {fmts[f]} has type {ft}', op=op)
            key = (fmts[f], name, size)
            ctx.check(functions.setdefault(key, fn) is fn, 'function-changed',
                      f'{key} was the function {functions[key]} and is now {fn}', op=op)
            # (a user's class may share with its base)
            key = (fmts[f][:4], name, size)
            ctx.check(owner.setdefault(fn, key) == key, 'function-shared',
                      f'{key} and {owner[fn]} share the function {fn}', op=op)
            tk = (f, name, size, tuple(args))
            if tk in terms:
                ctx.probe('repeated')
                ctx.check(terms[tk] is t, 'term-changed', f'{name} of {fmts[f]} on {args} was {terms[tk]} and is now {t}', op=op)
            else:
                terms[tk] = t
                history.append(tk)
        n_ops[0] += 1

    def call(tid, opt, fn):
        if 'solver' in opt:
            BACKEND.armed = [tid, opt['solver']]
        try:
            return True, fn()
        except MemoryError:
            ctx.probe('operation_failed')
            return False, None
        finally:
            BACKEND.disarm(tid)

    def disturb(opt):
        t = opt.get('thunk')
        if t == 'gc':
            ctx.collect()
        elif t == 'work':
            busy.busy(hw, len(history))
        elif t == 'yield':
            ctx.yield_point('between')

    def do(tid, op):
        kind = op[1]
        if kind == 'value':
            _, _, h, f, how, v = op

            def make():
                T = type_of(f)
                n = T.size
                if how == 'sym':
                    return T()
                if how == 'named':
                    named[0] += 1
                    return T(name=f'c13_{op[0]}_{named[0]}_{n}')
                if how == 'bv':
                    return T.reinterpret_from_bv(hw.SMTBitVector[n](v % (1 << n)) + hw.SMTBitVector[n]())
                if how == 'shared':
                    for k, (g, x) in sorted(slots.items()):
                        if fmts[g] == fmts[f]:
                            return x
                return T(v % (1 << n))
            ok, x = call(tid, {}, make)
            slots[h] = (f, x)
        elif kind == 'op':
            _, _, h, f, name, hs, via_oper, opt = op
            arity, _, oper = OPS[name]
            xs = [operand(s, f) for s in hs[:arity]]
            with ctx.atomic():
                args = [term(x) for x in xs]
            disturb(opt)
            fn = (lambda: oper(*xs)) if via_oper and oper else (lambda: getattr(xs[0], name)(*xs[1:]))
            ok, res = call(tid, opt, fn)
            if ok:
                check(f, name, None, args, res, op, type(xs[0]))
                if OPS[name][1] == 'fp' and len(repr(args)) < 2000:
                    slots[h] = (f, res)
        elif kind == 'ne':
            _, _, f, hs, opt = op
            x, y = operand(hs[0], f), operand(hs[1], f)
            ok, res = call(tid, opt, lambda: x != y)
            if ok:
                with ctx.atomic():
                    t, args = term(res), [term(x), term(y)]
                ctx.check(t.is_not(), 'not-a-function', f'!= of {fmts[f]} yields {t}', op=op)
                check(f, 'fp_eq', None, args, hw.SMTBit(t.arg(0)), op)
        elif kind == 'conv':
            _, _, f, name, size, h, opt = op
            x = operand(h, f)
            with ctx.atomic():
                args = [term(x)]
            disturb(opt)
            ok, res = call(tid, opt, lambda: getattr(x, name)(size))
            if ok:
                check(f, name, size, args, res, op)
        elif kind == 'again':
            # the same operation on operands made anew from the recorded terms
            if not history:
                return
            f, name, size, args = history[op[2] % len(history)]

            xs = []

            def redo():
                xs[:] = [from_term(f, t) for t in args]
                return getattr(xs[0], name)(*xs[1:], *([] if size is None else [size]))
            disturb(op[3])
            ok, res = call(tid, op[3], redo)
            if ok:
                check(f, name, size, args, res, op, type(xs[0]))
                ctx.probe('operation_redone')
        elif kind == 'drop':
            for s in [s for s, (f, _) in slots.items() if fmts[f] == fmts[op[2]] and s.startswith(f'c{tid}')]:
                slots.pop(s, None)
            if not any(fmts[f] == fmts[op[2]] for f, _ in slots.values()):
                mine.pop(fmts[op[2]], None)
        elif kind == 'collect':
            ctx.collect()
        elif kind == 'work':
            busy.busy(hw, op[2])
        else:
            raise HarnessError(op)

    ctx.clients(plan['clients'], do)
    ctx.nontrivial = n_ops[0] >= 2 and (ctx.k.switches > 0 or ctx.k.gcs > 0 or bool(ctx.k.faults) or len(owner) > 1)
