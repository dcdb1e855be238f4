"""C03: types and symbolic variables the caller drops are reclaimed."""
import enum
import gc
import random
import weakref

from .. import poke
from .. import typespec as ts
from ..typespec import Env, HookError, Missing
from ..values import NoValue, default
from . import c01

ID = 'C03'
hw = None
PRE = set()


def prepare():
    global hw
    import hwtypes
    hw = hwtypes
    gc.collect()
    PRE.update(id(o) for o in gc.get_objects() if isinstance(o, type))
    todo = [object]                       # static types are not tracked by gc
    while todo:
        c = todo.pop()
        PRE.add(id(c))
        todo += [s for s in type.__subclasses__(c) if id(s) not in PRE]


def generate(r, tier):
    nc = r.choice([1, 1, 1, 2, 2, 3])
    g = c01.new_g(r)
    g['sizes'] = r.sample(range(1, 40), r.randint(2, 4))
    setup = c01.gen_env(r, g)
    pool = [ts.gen_spec(r, g) for _ in range(r.randint(2, 5))]
    asking = r.random() < .3        # mostly questions to plain values and variables
    if asking:
        pool = [ts.gen_bv(r, g) if r.random() < .6 else ts.gen_fp(r, g) for _ in range(r.randint(1, 3))]
    clients = []
    for c in range(nc):
        ops = []
        slots = [f'c{c}h{i}' for i in range(2 if asking else 4)]
        for j in range(r.randint(5, 16 if nc == 1 else 8)):
            oid = f'c{c}.{j}'
            x = r.random()
            s = r.choice(slots)
            if asking and .3 <= x < .9:
                if x < .5:
                    x = .6          # a symbolic variable
                elif x < .8:
                    ops.append([oid, r.choice(['poke', 'pokesym']), s, r.choice(slots), r.randrange(1 << 30)])
                    continue
            if x < .3:
                opt = {}
                if r.random() < .2:
                    opt['arm'] = r.randint(0, 3)
                ops.append([oid, 'req', r.choice(pool), s, opt])
            elif x < .55:
                ops.append([oid, 'work', s, r.choice(slots), r.randrange(1000)])
            elif x < .7:
                ops.append([oid, 'sym', r.choice(slots), r.choice(['SMTBit', 'SMTBitVector', 'SMTInt', 'SMTFPVector',
                                                                  'z3Bit', 'z3BitVector', 'SMTSIntVector']),
                            r.choice(g['sizes']), r.choice(['name', 'name', 'auto', 'prefix'])])
            elif x < .78 and r.random() < .5:
                ops.append([oid, 'drop', s])
            elif x < .78:
                ops.append([oid, r.choice(['poke', 'poke', 'pokesym']), s, r.choice(slots), r.randrange(1 << 30)])
            elif x < .83:
                ops.append([oid, 'dropsym', s])
            elif x < .88:
                ops.append([oid, 'again', s])
            elif x < .92:
                ops.append([oid, 'collect'])
            elif x < .96:
                ops.append([oid, 'dropall'])
            else:
                ops.append([oid, 'fail', s, r.randrange(6)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'setup': setup, 'clients': clients,
            'rounds': r.choice([0, 0, 0, 3]) if nc == 1 else 0}


class Tracker:
    """Weak references to everything the library handed out in this run."""

    def __init__(self):
        self.refs = {}

    def add(self, obj, what):
        if obj is None or id(obj) in PRE:
            return
        try:
            r = weakref.ref(obj)
        except TypeError:
            return
        self.refs[id(r)] = (r, what)

    def obj(self, v, what):
        """A value: the value itself and its type."""
        if isinstance(v, tuple):
            for x in v:
                self.obj(x, what)
            return
        if isinstance(v, type):
            self.add(v, what)
            return
        if isinstance(v, enum.Enum):
            return
        if type(v).__module__.split('.')[0] in ('hwtypes', 'sim', 'mod') or id(type(v)) not in PRE:
            self.add(v, what)
            self.add(type(v), what + ['type'])

    def alive(self):
        return [(r(), what) for r, what in self.refs.values() if r() is not None]


def suited(t, n):
    """The n-th kind of use that a type of this kind has."""
    l = (2, 3, 4, 9, 10, 11, 12, 14, 18, 19, 22, 23)
    if not isinstance(t, type):
        pass
    elif issubclass(t, hw.AbstractBitVector):
        l += (5, 6, 15, 20, 24, 1, 5, 15, 24)
    elif issubclass(t, hw.fp_vector_abc.AbstractFPVector):
        l += (7, 17, 7, 17)
    elif hw.is_adt_type(t):
        l += (0, 1, 8, 13, 16, 21, 0, 1, 8, 13, 16, 16)
    return l[n % len(l)]


def work(hw, env, t, u, which, tr, what):
    """Use a type and a value of it; returns things the caller keeps."""
    if which == 0:
        x = hw.modifiers.strip_modifiers(t)
    elif which == 1:
        x = hw.adt_util.rebind_bitvector(t, hw.AbstractBitVector, hw.SMTBitVector)
    elif which == 2:
        x = hw.modifiers.push_modifiers(t)
    elif which == 3:
        x = hw.adt_util.rebind_type(t, hw.SMTBit.get_family())
    elif which == 4:
        v = default(hw, t, 1)
        w = default(hw, t, 2)
        x = (v, w, v == w, {v: 1} if type(v).__hash__ else None)[:3]
        hash(v) if type(v).__hash__ else None
        repr(v)
    elif which == 5:
        v = default(hw, t, 1)
        fam = v.get_family()
        w = fam.Signed[v.size](1) if fam.Signed is not None and not isinstance(v, fam.Signed) \
            else fam.BitVector[v.size](1)
        x = fam.Bit(1).ite(v, w)
        x = (x, x + 1, x.bvult(1))
    elif which == 6:
        v = default(hw, t, 1)
        x = (v.zext(2), v.concat(v), v[0], v[:1], v.bvadd(v), v == v, ~v)
    elif which == 7:
        v = default(hw, t, 1)
        x = (v.fp_add(v), v.fp_lt(v), v.fp_neg())
    elif which == 8:
        x = tuple(t.enumerate())[:4] if t.is_bound else ()
    elif which == 9:
        isinstance(default(hw, t, 0), u)
        issubclass(t, u)
        x = ()
    elif which == 10:
        M = hw.modifiers
        for lab, (s, m) in sorted(env.mods.items()):
            isinstance(default(hw, t, 0), m)
            issubclass(t, m)
        x = M.unwrap_modifier(t)[0]
        M.is_modified(t)
    elif which == 11:
        x = hw.Tuple[t, u]
        x = (x, hw.Sum[t, u], hw.Product.from_fields('W', {'a': t, 'b': u}))
    elif which == 12:
        class Sub(t):
            pass
        x = Sub
    elif which == 13:
        x = t.rebind(u, hw.Bit)
    elif which == 14:
        v = default(hw, t, 1)
        x = hw.adt.AnonymousProduct[{'q': t}]
        x = (x, x(v), x(v).value_dict and None)[:2]
    elif which == 15:
        x = default(hw, t, 1)
        fam = x.get_family()
        s = fam.Bit() if fam.Bit is not hw.Bit else fam.Bit(0)
        y = s.ite(fam.Unsigned[x.size](1), fam.Signed[x.size](2))
        x = (y, s.ite((y, s), (x, s)))
    elif which == 16:
        v = default(hw, t, 1)
        x = (v, use_adt(v, t))
    elif which == 17:
        v = default(hw, t, 1)
        b = v.reinterpret_as_bv()
        x = (t.reinterpret_from_bv(b), v.to_ubv(5), v.to_sbv(6), b)
        if not isinstance(v, hw.SMTFPVector):
            x += (t.random(), t(1.5), t('0.25'), t(v), v.fp_fma(v, v), v.fp_is_normal())
            float(v)
    elif which == 18:
        v, w = default(hw, t, 1), default(hw, u, 1)
        x = hw.Tuple(v, w)
        x = (x, x[0], hw.Tuple(x))
    elif which == 19:
        x = hw.modifiers.new(t, name='New')
    elif which == 20:
        v = default(hw, t, 1)
        x = (v.adc(v, v.get_family().Bit(1)), v.repeat(2), v.make_constant(1), type(v)(v), v.sext(1), v.bvsmod(v)
             if hasattr(v, 'bvsmod') else None)
    elif which == 21:
        x = ()
        V = type('V', (hw.adt_util.ADTVisitor,), {'visit_leaf': lambda self, T: None})
        V().visit(t)
        V = type('V', (hw.adt_util.ADTInstVisitor,), {'visit_leaf': lambda self, v: None})
        V().visit(default(hw, t, 1))
    elif which == 22:
        x = (hw.adt_util.rebind_keep_modifiers(t, u, hw.Bit),
             hw.adt_util.rebind_bitvector(t, hw.BitVector, hw.SIntVector, keep_modifiers=True))
    elif which == 23:
        ms = [m for lab, (s, m) in sorted(env.mods.items())]
        x = hw.modifiers.wrap_modifier(t, ms[:2])
        x = (x, list(hw.modifiers.get_all_modifiers(x)) and None)[:1]
    elif which == 24:
        # a symbolic condition over the type's family
        v = default(hw, t, 1)
        fam = v.get_family()
        a, b = fam.Bit(), fam.BitVector[v.size]()
        y = (b == v)
        f = hw.smt_utils
        z = f.And([y, f.Or([a, f.Implies(a, y)])]).to_hwtypes() if fam.Bit is hw.SMTBit else y & a
        x = (a, b, y, z, z.ite(b, v))
        if fam.Bit is hw.SMTBit:
            x += (z.substitute((a, y)), b.substitute((b, v)), b.as_uint(), b.as_sint() if v.size > 1 else 0)
    tr.obj(x, what)
    return x


def use_adt(v, t):
    """Reads and writes of an algebraic value."""
    out = []
    if isinstance(v, hw.Enum):
        return getattr(t, v.name)
    if isinstance(v, hw.TaggedUnion):
        for n in t.field_dict:
            m = getattr(v, n)
            if m.match:
                out.append(m.value)
                setattr(v, n, m.value)
    elif isinstance(v, hw.Sum):
        for T in t.fields:
            m = v[T]
            if m.match:
                out.append(m.value)
                v[T] = m.value
    else:
        for i in range(len(t.fields)):
            out.append(v[i])
            v[i] = v[i]
    out.append(t.from_values(dict(v.value_dict)))
    try:
        v[object] = None
    except (TypeError, KeyError):
        pass
    return tuple(out)


def fail(hw, t, which):
    if which == 0:
        t(object())
    elif which == 1:
        t['no such']
    elif which == 2:
        default(hw, t, 1) + object()
    elif which == 3:
        hw.Tuple[t](object())
    elif which == 4:
        default(hw, t, 1).concat(None)
    else:
        v = default(hw, t, 1)
        v.get_family().Bit(1).ite(v, v.zext(1))


def run(ctx, plan):
    env = Env(ctx, hw)
    tr = Tracker()
    held = {}         # slot -> (spec, type or None, parts, [kept values])
    syms = {}         # slot -> list of (variable, T maker, name)
    freed = []        # (T maker, name) of dropped named variables
    serial = [0]
    nops = [0]
    solo = len(plan['clients']) == 1

    def make_type(kind, n):
        if kind in ('SMTBit', 'SMTInt', 'z3Bit'):
            return getattr(hw, kind) if kind != 'SMTInt' else hw.SMTInt
        if kind == 'SMTFPVector':
            return hw.SMTFPVector[3, 2 + n % 3, hw.fp_vector_abc.RoundingMode.RNE, True]
        return env.families[kind][n]

    def names_free(lst):
        for kind, n, name in lst:
            try:
                T = make_type(kind, n)
                v = T(name=name)
            except ValueError as e:
                ctx.violation('name-kept', f'the name of a dropped symbolic variable is still taken: {e}',
                              kind=kind, name=name)
            del v

    def dead(slotless, where):
        """Everything tracked must be gone."""
        ctx.collect()
        left = tr.alive()
        n, idle = len(left), 0
        while left and idle < 6:
            # a cache key keeps the fields of a dead type until the type is gone,
            # so every level of nesting takes one collection
            del left
            gc.collect()
            left = tr.alive()
            idle = idle + 1 if len(left) == n else 0
            n = len(left)
        ctx.check(not left, 'leak', 'the library keeps something the caller dropped alive',
                  what=[[repr(o)[:120], w] for o, w in left[:5]], where=where)

    def do(tid, op):
        oid, kind = op[0], op[1]
        try:
            step(tid, oid, kind, op)
        except (NoValue, Missing):
            pass

    def step(tid, oid, kind, op):
        if kind == 'req':
            _, _, spec, slot, opt = op
            held.pop(slot, None)
            if 'arm' in opt:
                env.arm[tid] = opt['arm']
            parts = []
            try:
                t = env.build(spec, parts)
            except HookError:
                ctx.check('arm' in opt, 'foreign-failure', 'a request failed with another\'s error')
                ctx.probe('request_failed_midway')
                return
            finally:
                env.arm.pop(tid, None)
                for s, p in parts:
                    tr.add(p, ['part', s])
            held[slot] = (spec, t, [])
            nops[0] += 1
        elif kind == 'work':
            _, _, slot, other, which = op
            h, o = held.get(slot), held.get(other)
            if h is None or h[1] is None:
                return
            u = o[1] if o is not None else hw.Bit
            which = suited(h[1], which)
            what = ['work', h[0], which]
            try:
                x = work(hw, env, h[1], u, which, tr, what)
            except (TypeError, ValueError, AttributeError, IndexError, KeyError):
                ctx.probe('work_rejected')
                return
            nops[0] += 1
            ctx.probe(f'work{which}')
            h[2].append(x)
        elif kind == 'poke':
            h, o = held.get(op[2]), held.get(op[3])
            if h is None:
                return
            r = random.Random(op[4])
            t, u = h[1], o[1] if o is not None else hw.Bit
            vs = []
            for T, n in ((t, 1), (t, 2), (u, 1)):
                try:
                    vs.append(default(hw, T, n))
                except (NoValue, TypeError, ValueError, AttributeError, IndexError, KeyError):
                    pass
            bits = [v.get_family().Bit(1) for v in vs if isinstance(v, hw.AbstractBitVector)]
            mods = [m for lab, (s, m) in sorted(env.mods.items())]
            tc = [t, u, hw.Bit, 0, 1, 'f', {'a': t, 'b': u}, (t, u)] + mods[:2] + vs
            got = []
            for v in vs[:1]:
                for a in poke.value(r, v, vs + bits + [t, 0, 1, 3], r.randint(1, 12)):
                    got.append(a)
            got += poke.of_type(r, t, tc, r.randint(0, 3))
            for m in (hw.modifiers, hw.adt_util, hw.bit_vector_util, hw.util, hw.smt_utils):
                got += poke.of_module(r, m, tc + [mods[:2]] + bits, r.randint(0, 1))
            for a in got:
                if a is not None:
                    ctx.probe('asked')
                    tr.obj(a, ['poke', h[0], op[4]])
            if r.random() < .3:
                h[2].append(got)
            nops[0] += 1
        elif kind == 'pokesym':
            r = random.Random(op[4])
            vs = [v for v, n in syms.get(op[2], [])]
            for v in vs:
                for a in poke.value(r, v, vs + [0, 1], 8):
                    if a is not None:
                        ctx.probe('asked_symbol')
                        tr.obj(a, ['pokesym', op[4]])
            nops[0] += 1
        elif kind == 'fail':
            h = held.get(op[2])
            if h is None:
                return
            try:
                fail(hw, h[1], op[3])
            except (TypeError, ValueError, AttributeError, IndexError, KeyError):
                ctx.fault('operation_rejected')
        elif kind == 'sym':
            _, _, slot, k, n, how = op
            if how == 'prefix' and (k.startswith('z3') or k == 'SMTFPVector'):
                how = 'auto'
            T = make_type(k, n)
            serial[0] += 1
            name = f'n{serial[0]}'
            v = T(name=name) if how == 'name' else T(prefix='p') if how == 'prefix' else T()
            tr.obj(v, ['sym', k, n, how])
            syms.setdefault(slot, []).append((v, (k, n, name) if how == 'name' else None))
            # a formula over it, which may outlive it
            f = (v == v) if k not in ('SMTFPVector', 'SMTInt') else v
            if k not in ('SMTFPVector', 'SMTInt'):
                tr.obj(f, ['formula', k])
                h = held.get(slot)
                if h is not None:
                    h[2].append(f)
            nops[0] += 1
        elif kind == 'dropsym':
            lst = syms.pop(op[2], [])
            refs = [(weakref.ref(v), n) for v, n in lst]
            del lst
            ctx.collect()
            for r, n in refs:
                ctx.check(r() is None, 'variable-kept', 'a dropped symbolic variable stays alive', name=n)
            names_free([n for r, n in refs if n])
        elif kind == 'drop':
            held.pop(op[2], None)
        elif kind == 'again':
            h = held.get(op[2])
            if h is not None and h[0][0] != 'mod':
                if _cached(h[0]):
                    t = env.build(h[0])
                    ctx.check(t is h[1], 'lost', 'a type still in use was lost from the library\'s registries',
                              spec=h[0])
        elif kind == 'collect':
            ctx.collect()
        elif kind == 'dropall':
            mine = [s for s in held if s.startswith(f'c{tid}')]
            for s in mine:
                del held[s]
            names = []
            for s in [s for s in syms if s.startswith(f'c{tid}')]:
                names += [n for v, n in syms.pop(s) if n]
            if solo:
                ctx.note('dropall', oid)
                check_dead_types(env, tr, dead, oid)
                names_free(names)
            else:
                ctx.collect()
                names_free(names)

    def one_round():
        for op in plan.get('setup', ()):
            if op[1] == 'user':
                tr.add(env.new_user(op[2], op[3], op[4]), ['user'])
            elif op[1] == 'mod':
                tr.add(env.new_mod(op[2], op[3], op[4]), ['mod'])
        ctx.clients(plan['clients'], do)
        names = [n for l in syms.values() for v, n in l if n]
        held.clear()
        syms.clear()
        env.user.clear()
        env.mods.clear()
        env.arm.clear()
        env.hook_req.clear()
        dead(True, 'end of run')
        names_free(names)
        tr.refs.clear()

    one_round()
    if plan.get('rounds'):
        # long histories of distinct requests do not accumulate types
        counts = []
        for i in range(plan['rounds']):
            shift(plan, 50 * (i + 1))
            ctx.fault('history_round')
            one_round()
            for _ in range(5):
                gc.collect()
            counts.append(sum(1 for o in gc.get_objects() if isinstance(o, type)))
        ctx.check(counts[-1] <= counts[0], 'growth', 'the number of live types grows with the history',
                  counts=counts)
    ctx.nontrivial = nops[0] >= 2


def check_dead_types(env, tr, dead, where):
    """User classes and modifiers of the setup are still held by the caller."""
    keep = {id(c) for s, c in env.user.values()} | {id(m) for s, m in env.mods.values()}
    refs = tr.refs
    kept = {k: v for k, v in refs.items() if id(v[0]()) in keep}
    tr.refs = {k: v for k, v in refs.items() if k not in kept}
    try:
        dead(False, where)
    finally:
        tr.refs.update(kept)


def _cached(spec):
    if isinstance(spec, dict):
        return spec.get('cache', True)
    if isinstance(spec, list):
        return all(_cached(x) for x in spec)
    return True


def shift(x, n):
    """Other sizes in all requests of the plan."""
    if isinstance(x, dict):
        for v in x.values():
            shift(v, n)
    elif isinstance(x, list):
        if len(x) >= 3 and x[0] == 'bv' and isinstance(x[2], int) and x[2] > 0:
            x[2] += n
        elif len(x) >= 6 and x[1] == 'sym':
            x[4] += n
        else:
            for v in x:
                shift(v, n)
