"""C01: equal type requests yield one shared type for as long as it is alive."""
from .. import typespec as ts
from ..typespec import Env, HookError, Missing

ID = 'C01'
hw = None


def prepare():
    global hw
    import hwtypes
    hw = hwtypes


ALL_KINDS = ['bv', 'fp', 'tuple', 'sum', 'aprod', 'prod', 'union', 'enum', 'mod']
USER_BASES = ['BitVector', 'SIntVector', 'FPVector', 'Tuple', 'Sum', 'Product', 'TaggedUnion', 'leaf', 'leaf',
              'AnonymousProduct', 'Product', 'TaggedUnion', 'Enum', 'SMTBitVector', 'z3SIntVector']
GROUP = {'BitVector': 'bvs', 'SIntVector': 'bvs', 'SMTBitVector': 'bvs', 'z3SIntVector': 'bvs', 'FPVector': 'fps', 'Tuple': 'tuples', 'Sum': 'sums',
         'Product': 'prods', 'TaggedUnion': 'unions', 'leaf': 'leafs', 'AnonymousProduct': 'aprods',
         'Enum': 'enums'}


def gen_cfg(r, clients):
    gran = 'instr' if r.random() < .3 else 'line'
    f = 6 if gran == 'instr' else 1
    return {'gran': gran,
            'p_switch': r.choice([.3, .1, .03, .01]) / f if clients > 1 else 0.0,
            'p_gc': r.choice([0, 0, .001, .005]) / f,
            'p_op': r.choice([.2, .6, .9])}


def gen_env(r, g):
    """Setup ops making user classes and modifiers; fills the label groups of g."""
    setup = []
    twins = r.random() < .3         # classes of one name from one base
    one = r.choice(USER_BASES)
    for i in range(r.randint(2 if twins else 0, 4)):
        b = one if twins and r.random() < .7 else r.choice(USER_BASES)
        lab = f'u{i}'
        mine = g[GROUP[b]]
        if b != 'leaf' and mine and r.random() < .5:
            b = ['u', r.choice(mine)]       # a class derived from one of the others
        mine.append(lab)
        name = r.choice(['L', 'L', 'U', 'U', 'MU', 'ML'])
        setup.append([f's{len(setup)}', 'user', lab, b, 'U' if twins and r.random() < .7 else name])
    if twins and one != 'leaf':
        # requests of them
        k = {'BitVector': 'bv', 'SMTBitVector': 'bv', 'z3SIntVector': 'bv', 'SIntVector': 'bv', 'FPVector': 'fp', 'Tuple': 'tuple', 'Sum': 'sum',
             'AnonymousProduct': 'aprod', 'Product': 'prod', 'TaggedUnion': 'union', 'Enum': 'enum'}.get(one)
        if k:
            g['kinds'] = [k] + g['kinds'][:1]
            g['twins'] = k, [op[2] for op in setup if op[3] == one]
    if 'mod' in g['kinds']:
        for i in range(r.randint(1, 3)):
            lab = f'm{i}'
            g['mods'].append(lab)
            setup.append([f's{len(setup)}', 'mod', lab, r.choice(['M', 'M', 'N', 'm', 'M ']), r.random() < .3])
    return setup


def twin_requests(r, g):
    """The same request of several classes."""
    k, labels = g['twins']
    s = ts.gen_spec(r, dict(g, kinds=[k]))
    return [[s[0], ['u', lab]] + s[2:] for lab in labels]


def new_g(r):
    g = {k: [] for k in ('bvs', 'fps', 'tuples', 'sums', 'prods', 'unions', 'leafs', 'aprods', 'enums', 'mods')}
    n = r.randint(1, 4)
    g['kinds'] = r.sample(ALL_KINDS, n)
    g['sizes'] = r.sample([0, 1, 2, 3, 4, 7, 8, 16, 31, 33], r.randint(2, 4))
    g['sym'] = r.random() < .4
    g['fp'] = r.random() < .3
    g['via'] = r.random() < .4
    return g


def generate(r, tier):
    nc = r.choice([1, 2, 2, 2, 3, 3, 4])
    g = new_g(r)
    setup = gen_env(r, g)
    pool = [ts.gen_spec(r, g)]
    for _ in range(r.randint(1, 4)):
        pool.append(ts.variant(r, g, r.choice(pool)) if r.random() < .7 else ts.gen_spec(r, g))
    if r.random() < .2:
        pool = ts.gen_family(r, g) or pool
    if 'twins' in g and r.random() < .7:
        pool = pool[:2] + twin_requests(r, g)
    fail = r.random() < .5
    clients = []
    for c in range(nc):
        ops = []
        for j in range(r.randint(2, 8 if nc < 3 else 5)):
            oid = f'c{c}.{j}'
            x = r.random()
            if x < .68:
                opt = {}
                if fail and r.random() < .35:
                    opt['arm'] = r.randint(0, 3)
                if r.random() < .08:
                    opt['reenter'] = r.choice(pool)
                if r.random() < .25:
                    opt['again'] = True
                ops.append([oid, 'req', r.choice(pool), f'c{c}h{r.randrange(3)}', opt])
            elif x < .8:
                ops.append([oid, 'drop', f'c{c}h{r.randrange(3)}'])
            elif x < .86:
                ops.append([oid, 'collect'])
            elif x < .92 and g['mods']:
                lab = r.choice(g['mods'])
                ops.append([oid, 'mkmod', lab + f'c{c}', r.choice(['M', 'N', 'm', 'M ']), r.random() < .7])
            elif g['leafs']:
                ops.append([oid, 'newleaf', r.choice(g['leafs']), r.choice(['L', 'U', 'ML'])])
            else:
                ops.append([oid, 'drop', f'c{c}h{r.randrange(3)}'])
        clients.append(ops)
    return {'cfg': gen_cfg(r, nc), 'setup': setup, 'clients': clients}


class Model:
    """key -> the one live object.  Only objects the harness itself holds count."""

    def __init__(self, ctx, env):
        self.ctx = ctx
        self.env = env
        self.slots = {}          # slot -> list of (key, obj)

    def live(self):
        for parts in self.slots.values():
            yield from parts

    def admit(self, slot, parts):
        """parts: [(key, spec, obj)] just obtained; check against everything held."""
        ctx = self.ctx
        held = list(self.live())
        new = []
        for key, spec, obj in parts:
            for k2, o2 in held + new:
                if k2 == key:
                    ctx.check(o2 is obj, 'not-identical',
                              f'an equal request returned a different type while {o2!r} is alive',
                              spec=spec, key=key)
                elif o2 is obj:
                    ctx.violation('shared', f'different requests share the type {obj!r}',
                                  spec=spec, key=key, other=k2)
            new.append((key, obj))
        self.slots[slot] = new


def run(ctx, plan):
    env = Env(ctx, hw)
    model = Model(ctx, env)
    nreq = [0]
    hook_slot = [0]

    def in_hook(key, spec, t):
        hook_slot[0] += 1
        model.admit(f'hook{hook_slot[0]}', [(key, spec, t)])
    env.seen_in_hook = in_hook

    def do(tid, op):
        oid, kind = op[0], op[1]
        try:
            if kind == 'user':
                env.new_user(op[2], op[3], op[4])
            elif kind == 'mod':
                env.new_mod(op[2], op[3], op[4])
            elif kind == 'newleaf':
                ctx.fault('class_recreated')
                env.new_user(op[2], 'leaf', op[3])
            elif kind == 'mkmod':
                m = env.new_mod(op[2], op[3], op[4])
                model.admit(op[2], [(('modifier', env.mods[op[2]][0]), op, m)])
            elif kind == 'drop':
                model.slots.pop(op[2], None)
            elif kind == 'collect':
                ctx.collect()
            elif kind == 'req':
                request(tid, op)
        except Missing:
            return

    def request(tid, op):
        _, _, spec, slot, opt = op
        try:
            env.key(spec)            # resolve labels before (labels may move under us)
        except Missing:
            return
        frozen = env.frozen()
        for attempt in range(2 if opt.get('again') else 1):
            if 'arm' in opt and attempt == 0:
                env.arm[tid] = opt['arm']
            if 'reenter' in opt and attempt == 0:
                env.hook_req[tid] = opt['reenter']
            parts = []
            armed = 'arm' in opt and attempt == 0
            try:
                frozen.build(spec, parts)
            except HookError:
                ctx.check(armed, 'foreign-failure', 'a request failed with another request\'s error', op=op)
                ctx.note('hookerror', op[0])
                ctx.probe('request_failed_midway')
                continue
            finally:
                env.arm.pop(tid, None)
                env.hook_req.pop(tid, None)
            nreq[0] += 1
            # two mentions of one uncached definition are two requests
            model.admit(slot, [(frozen.key(s), s, t) for s, t in parts])
            ctx.note('got', op[0], attempt, getattr(parts[-1][1], '__name__', '?'))

    for op in plan.get('setup', ()):
        do(-1, op)
    ctx.clients(plan['clients'], do)
    ctx.nontrivial = nreq[0] >= 2 and (ctx.k.switches > 0 or ctx.k.gcs > 0 or bool(ctx.k.faults))

