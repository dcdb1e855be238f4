"""C11: modifier bookkeeping stays exact."""
import weakref

from .. import busy, values
from .. import typespec as ts
from ..typespec import Env, HarnessError, HookError, Missing
from . import c01

ID = 'C11'
hw = None


def prepare():
    global hw
    import hwtypes
    import hwtypes.modifiers
    hw = hwtypes


def generate(r, tier):
    nc = r.choice([1, 1, 2, 2, 3, 4])
    g = c01.new_g(r)
    g['no_smtfp'] = True
    g['kinds'] = r.sample([k for k in c01.ALL_KINDS if k != 'mod'], r.randint(1, 4))
    g['kinds'] += ['bv'] if r.random() < .3 else []
    setup = []
    for i in range(r.randint(0, 3)):
        b = r.choice(c01.USER_BASES)
        g[c01.GROUP[b]].append(f'u{i}')
        setup.append([f's{len(setup)}', 'user', f'u{i}', b, r.choice(['L', 'M', 'N'])])
    mods = [f'm{i}' for i in range(r.randint(1, 4))]
    for m in mods:
        setup.append([f's{len(setup)}', 'mod', m, r.choice(['M', 'M', 'N', 'm', 'M ']), r.random() < .3])
    pool = [ts.gen_spec(r, g) for _ in range(r.randint(1, 3))]
    if g['leafs'] and r.random() < .5:
        pool.append(['user', r.choice(g['leafs'])])
    shared = []
    for i in range(r.randint(0, 2)):
        setup.append([f's{len(setup)}', 'base', f's{i}', r.choice(pool)])
        shared.append(f's{i}')
        if r.random() < .6:
            setup.append([f's{len(setup)}', 'apply', f's{i}', f's{i}m', r.choice(mods), {}])
            shared.append(f's{i}m')
    fail = r.random() < .4
    clients = []
    for c in range(nc):
        slots = [f'c{c}h{i}' for i in range(5)]
        ops = [[f'c{c}.n', 'base', slots[0], r.choice(pool)]]
        for j in range(r.randint(4, 20 if nc == 1 else 9)):
            oid = f'c{c}.{j}'
            x = r.random()
            src = r.choice(slots + shared * 2)
            opt = {}
            if fail and r.random() < .3:
                opt['arm'] = r.randint(0, 4)
            if r.random() < .06:
                opt['reenter'] = ['mod', r.choice(mods), r.choice(pool)]
            if x < .12:
                ops.append([oid, 'base', r.choice(slots), r.choice(pool)])
            elif x < .50:
                ops.append([oid, 'apply', src, r.choice(slots), r.choice(mods), opt])
            elif x < .58:
                ops.append([oid, 'subclass', src, r.choice(slots), r.choice(['S', 'M', 'N'])])
            elif x < .66:
                ops.append([oid, 'rewrap', src, r.sample(mods, r.randint(0, len(mods))), r.random() < .15])
            elif x < .72:
                ops.append([oid, 'unmodified', src, r.choice(slots)])
            elif x < .78:
                ops.append([oid, 'mkmod', r.choice(mods), r.choice(['M', 'N', 'm', 'M ']), r.random() < .3])
            elif x < .86:
                ops.append([oid, 'drop', r.choice(slots)])
            elif x < .93:
                ops.append([oid, 'collect'])
            elif x < .97:
                ops.append([oid, 'misuse', src, r.choice(mods), r.randrange(4)])
            else:
                ops.append([oid, 'work', r.randrange(3000)])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'setup': setup, 'clients': clients}


class Rec:
    """A type: where it came from."""
    __slots__ = ('t', 'base', 'mod', '__weakref__')

    def __init__(self, t, base=None, mod=None):
        self.t = t
        self.base = base        # Rec it was modified from
        self.mod = mod          # weak reference to the modifier

    def chain(self):
        return (self.base.chain() if self.base is not None else []) + ([self.mod] if self.mod is not None else [])

    def root(self):
        return self.base.root() if self.base is not None else self


def run(ctx, plan):
    env = Env(ctx, hw)
    md = hw.modifiers
    cells = {}              # slot -> Rec
    known = weakref.WeakValueDictionary()       # id(type) -> Rec, while the type is held
    n_apply = [0]

    def rec_of(t, base=None, mod=None):
        r = known.get(id(t))
        if r is not None and r.t is t:
            ctx.check((r.base and r.base.t) is (base and base.t) and (r.mod and r.mod()) is (mod and mod()),
                      'shared', f'{t} is the result of two different applications')
            return r
        r = Rec(t, base, mod)
        known[id(t)] = r
        return r

    def get(slot):
        r = cells.get(slot)
        if r is None:
            raise Missing(slot)
        return r

    def raises(fn, *a):
        try:
            return False, fn(*a)
        except TypeError:
            return True, None

    def verify(r, op, full=True):
        """Ask everything about one type."""
        t = r.t
        mod = r.mod() if r.mod is not None else None
        if r.mod is not None:
            ctx.check(mod is not None, 'modifier-lost', f'the modifier of {t} is gone while {t} is alive', op=op)
        ctx.check(md.is_modified(t) is (mod is not None), 'is-modified',
                  f'is_modified({t}) is {md.is_modified(t)}', op=op)
        bad, m = raises(md.get_modifier, t)
        ctx.check((bad and mod is None) or (not bad and m is mod), 'get-modifier',
                  f'get_modifier({t}) {"fails" if bad else f"is {m}"}, expected {mod}', op=op)
        bad, u = raises(md.get_unmodified, t)
        ctx.check((bad and mod is None) or (not bad and r.base is not None and u is r.base.t), 'get-unmodified',
                  f'get_unmodified({t}) {"fails" if bad else f"is {u}"}', op=op)
        if mod is not None:
            ctx.check(md.is_modifier(mod), 'is-modifier', f'is_modifier({mod}) is false', op=op)
        ctx.check(not md.is_modifier(t), 'is-modifier', f'is_modifier({t}) is true', op=op)
        chain = [w() for w in r.chain()]
        ctx.check(list(md.get_all_modifiers(t)) == chain, 'all-modifiers',
                  f'get_all_modifiers({t}) is {list(md.get_all_modifiers(t))}, expected {chain}', op=op)
        root, mods = md.unwrap_modifier(t)
        ctx.check(root is r.root().t and list(mods) == chain, 'unwrap',
                  f'unwrap_modifier({t}) is {root}, {mods}', op=op)
        if full and chain:
            ctx.check(md.wrap_modifier(root, mods) is t, 'wrap', f'wrapping {root} in {mods} is not {t}', op=op)
        all_mods = {id(m): m for _, m in list(env.mods.values())}
        for q in chain:
            all_mods[id(q)] = q
        for q in all_mods.values():
            ctx.check(issubclass(t, q) is (q is mod), 'issubclass',
                      f'issubclass({t}, {q}) is {issubclass(t, q)}', op=op)
        try:
            with ctx.atomic():
                v = values.default(hw, t, 1)
        except (values.NoValue, HookError, TypeError):
            return
        if type(v) is not t:
            return              # a member of an enum the type was made from
        for q in all_mods.values():
            ctx.check(isinstance(v, q) is (q is mod), 'isinstance',
                      f'isinstance of a value of {t} and {q} is {isinstance(v, q)}', op=op)
        ctx.probe('values_queried')

    def verify_all(tid, op):
        with ctx.atomic():
            for s, r in sorted(cells.items()):
                if s.startswith(f'c{tid}h') or s.startswith('s'):
                    verify(r, op)

    def base_of_spec(tid, spec):
        t = env.frozen().build(spec)
        r = known.get(id(t))
        return r if r is not None and r.t is t else rec_of(t)

    def applied(r, M, x, op):
        """x = M(r.t) was returned."""
        n = rec_of(x, r, weakref.ref(M))
        # the bases of a modified type are modified alike
        ctx.check(x.__bases__[0] is r.t and issubclass(x, r.t), 'bases', f'{x} does not inherit from {r.t}', op=op)
        n_apply[0] += 1
        return n

    def do(tid, op):
        try:
            _do(tid, op)
        except Missing:
            ctx.note('missing', op[0])

    def _do(tid, op):
        kind = op[1]
        if kind == 'user':
            env.new_user(op[2], op[3], op[4])
            return
        if kind in ('mod', 'mkmod'):
            if kind == 'mkmod':
                ctx.fault('modifier_recreated')
            m = env.new_mod(op[2], op[3], op[4])
            ctx.check(md.is_modifier(m), 'is-modifier', f'is_modifier({m}) is false', op=op)
            for r in [r for s, r in sorted(cells.items()) if s.startswith(f'c{tid}h')]:
                # a new modifier of the same name has no types yet
                if not op[4]:
                    ctx.check(not issubclass(r.t, m), 'issubclass', f'{r.t} belongs to a new modifier', op=op)
            return
        if kind == 'base':
            try:
                r = base_of_spec(tid, op[3])
            except HookError:
                return
            cells[op[2]] = r
            if r.mod is None:
                verify(r, op)
        elif kind == 'apply':
            apply_(tid, op)
        elif kind == 'subclass':
            r = get(op[2])
            try:
                s = type(r.t)(op[4], (r.t,), {'__module__': __name__})
            except (TypeError, HookError):
                return
            if s is r.t or known.get(id(s)) is not None and known[id(s)].t is s:
                return
            cells[op[3]] = n = rec_of(s)
            ctx.probe('subclassed')
            verify(n, op)
        elif kind == 'rewrap':
            r = get(op[2])
            view = env.frozen()
            ms = [view.mods[m][1] for m in op[3]]
            have = [w() for w in r.chain()]
            if op[4] and ms:
                ok, _ = raises(md.wrap_modifier, r.t, ms + ms[:1])
                ctx.check(ok, 'duplicates', 'wrap_modifier accepts a modifier twice', op=op)
                ctx.fault('request_rejected')
                return
            if len(set(map(id, ms))) != len(ms):
                return
            if any(m is h for m in ms for h in have) or not clean(r):
                return
            try:
                x = md.wrap_modifier(r.t, list(ms))
            except HookError:
                return
            n, keep = r, []
            for m in ms:
                with ctx.atomic():
                    n = applied(n, m, m(n.t), op)
                keep.append(n)
            ctx.check(n.t is x, 'wrap', f'wrap_modifier is {x} and applying one by one gives {n.t}', op=op)
            verify(n, op)
            ctx.probe('wrapped')
        elif kind == 'unmodified':
            r = get(op[2])
            if r.base is not None:
                with ctx.atomic():
                    u = md.get_unmodified(r.t)
                ctx.check(u is r.base.t, 'get-unmodified', f'get_unmodified({r.t}) is {u}', op=op)
                cells[op[3]] = r.base
        elif kind == 'drop':
            cells.pop(op[2], None)
            return
        elif kind == 'collect':
            ctx.collect()
        elif kind == 'misuse':
            misuse(op)
        elif kind == 'work':
            busy.busy(hw, op[2])
            return
        else:
            raise HarnessError(op)
        verify_all(tid, op)

    def clean(r):
        """No class above r is modified other than through its own chain (a
        modifier met twice cannot be applied)."""
        return not any(md.is_modified(c) for c in r.root().t.__mro__)

    def apply_(tid, op):
        _, _, src, dst, label, opt = op
        r = get(src)
        view = env.frozen()
        if label not in view.mods:
            raise Missing(label)
        M = view.mods[label][1]
        twice = any(w() is M for w in r.chain()) or not clean(r)
        held = {id(x.t): x for x in list(cells.values())}
        armed = 'arm' in opt
        if armed:
            env.arm[tid] = opt['arm']
        if 'reenter' in opt:
            env.hook_req[tid] = opt['reenter']
        try:
            x = M(r.t)
        except HookError:
            ctx.check(armed, 'foreign-failure', 'an application failed with another one\'s error', op=op)
            ctx.probe('application_failed')
            verify(r, op)
            return
        except TypeError:
            ctx.check(twice, 'refused', f'{M} cannot be applied to {r.t}', op=op)
            ctx.fault('request_rejected')
            verify(r, op)
            return
        finally:
            env.arm.pop(tid, None)
            env.hook_req.pop(tid, None)
        for h in held.values():
            if h.base is not None and h.base.t is r.t and h.mod() is M:
                ctx.check(h.t is x, 'not-identical', f'{M}({r.t}) gave a second type', op=op)
        n = applied(r, M, x, op)
        verify(n, op)
        ctx.check(M(r.t) is x, 'not-identical', f'{M}({r.t}) gave a second type', op=op)
        cells[dst] = n
        ctx.note('applied', op[0], x.__name__)

    def misuse(op):
        """Things that are not modified types."""
        r = get(op[2])
        m = env.frozen().mods[op[3]][1]
        n = op[4]
        if n == 0:
            for x in (3, 'x', None, [], object()):
                ctx.check(not isinstance(x, m), 'isinstance', f'{x!r} is an instance of {m}', op=op)
        elif n == 1:
            for t in (int, object, type(m), m):
                if t is object or t is int:
                    continue        # object becomes modified with every type
                ctx.check(not md.is_modified(t) and not issubclass(t, m), 'is-modified', f'{t} is modified', op=op)
        elif n == 2:
            bad, _ = raises(md.AbstractModifier, r.t)
            ctx.check(bad, 'abstract', 'AbstractModifier can be applied', op=op)
        else:
            for t in (int, object, str, type):
                ctx.check(not md.is_modified(t), 'is-modified', f'{t} is modified', op=op)
                ctx.check(raises(md.get_modifier, t)[0], 'get-modifier', f'{t} has a modifier', op=op)

    for op in plan['setup']:
        do(-1, op)
    ctx.clients(plan['clients'], do)
    ctx.nontrivial = n_apply[0] >= 1 and (ctx.k.switches > 0 or ctx.k.gcs > 0 or bool(ctx.k.faults) or n_apply[0] > 2)
