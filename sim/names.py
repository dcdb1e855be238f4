"""Workload of C04 and C05: creating, dropping and losing symbolic variables."""
import copy
import re
import warnings
import weakref

hw = None
MODES = ('RNE', 'RTZ')
AUTO_LIKE = re.compile(r'V_\d+')        # names the library warns about


class BackendError(Exception):
    """The solver back end failed to make a symbol (injected)."""


ARMED = {}          # tid -> 'before' | 'after'
CTX = None


def prepare():
    global hw
    import hwtypes
    hw = hwtypes
    import pysmt.formula
    import z3

    def wrap(fn):
        def wrapped(*a, **k):
            ctx = CTX
            if ctx is None or ctx.k.cur is None:
                return fn(*a, **k)
            tid = ctx.k.cur.tid
            ctx.yield_point('backend')
            if ARMED.get(tid) == 'before':
                del ARMED[tid]
                ctx.fault('backend_fails')
                raise BackendError('before')
            r = fn(*a, **k)
            ctx.yield_point('backend-end')
            if ARMED.get(tid) == 'after':
                del ARMED[tid]
                ctx.fault('backend_fails_after')
                raise BackendError('after')
            return r
        return wrapped
    fm = pysmt.formula.FormulaManager
    fm.get_or_create_symbol = wrap(fm.get_or_create_symbol)
    fm.new_fresh_symbol = wrap(fm.new_fresh_symbol)
    z3.Bool = wrap(z3.Bool)
    z3.BitVec = wrap(z3.BitVec)


KINDS = ['SMTBit', 'SMTBitVector', 'SMTBitVector', 'SMTSIntVector', 'SMTUIntVector', 'SMTInt', 'SMTFPVector',
         'z3Bit', 'z3BitVector', 'z3BitVector', 'z3SIntVector']


USES = ['copy', 'copy', 'ccopy', 'conv', 'op', 'not', 'ite', 'slice', 'repr', 'name-value', 'subst', 'int', 'fp']


def generate(r, tier, c01, auto_weight):
    nc = r.choice([1, 2, 2, 3, 3, 4])
    names = r.sample(['a', 'b', 'x y', 'p_0', 'p_1', 'p_2', 'q_0', 'V_0', 'V_1', 'V_2', 'V_10', 'FV0', 'FV1', 'FV2',
                      'p_0_0', "it's", 'é', '_0', '-_0', 'V', 'p', 'v_0', '__', '0'], r.randint(1, 5))
    prefixes = r.sample(['p', 'q', 'V', 'p_0', 'FV', '', 'a', '-'], r.randint(1, 3))
    if r.random() < .4:
        # explicit names which are the next automatic ones
        names = names[:2] + [f'{p}_{i}' for p in prefixes[:2] for i in range(r.randint(1, 3))]
    kinds = r.sample(KINDS, r.randint(1, 5))
    sizes = r.sample([1, 2, 8, 16], 2)
    werror = r.random() < .15
    faults = r.random() < .5
    clients = []
    for c in range(nc):
        ops = []
        for j in range(r.randint(3, 12 if nc < 3 else 7)):
            oid = f'c{c}.{j}'
            slot = f'c{c}h{r.randrange(4)}'
            x = r.random()
            T = [r.choice(kinds), r.choice(sizes)]
            opt = {}
            if faults and r.random() < .25:
                opt['fail'] = r.choice(['before', 'after'])
            if r.random() < .2:
                opt['cycle'] = True
            if r.random() < .2:
                opt['extra'] = r.choice(['bothnames', 'named-value', 'badname'])
            if x < .62:
                if r.random() < auto_weight:
                    how = ['prefix', r.choice(prefixes)] if r.random() < .5 and not T[0].startswith('z3') \
                        and T[0] != 'SMTFPVector' else ['auto']
                else:
                    how = ['name', r.choice(names)]
                ops.append([oid, 'new', slot, T, how, opt])
            elif x < .8:
                ops.append([oid, 'drop', slot])
            elif x < .86:
                ops.append([oid, 'collect'])
            elif x < .9:
                ops.append([oid, 'droperr', slot])
            elif x < .96:
                ops.append([oid, 'raw', r.choice(names + [f'{p}_{n}' for p in prefixes for n in range(3)]),
                            r.choice(['BOOL', 'INT', 1, 2, 8])])
            elif x < .97:
                ops.append([oid, 'derive', slot])
            elif x < .98:
                ops.append([oid, 'dropuse'])
            else:
                ops.append([oid, 'use', slot, r.choice(USES), r.random() < .5])
            if r.random() < .25:
                ops.append([oid + 'u', 'use', slot, r.choice(USES), r.random() < .5])
                if r.random() < .5:
                    ops.append([oid + 'd', 'dropuse'])
        clients.append(ops)
    return {'cfg': c01.gen_cfg(r, nc), 'werror': werror, 'clients': clients}


class World:
    def __init__(self, ctx, plan, report):
        self.ctx = ctx
        self.report = report            # the kinds of violations this property is about
        self.clock = 0
        self.slots = {}
        self.errs = {}
        self.uses = {}                  # tid -> values made from variables
        self.recs = []                  # every creation: dict
        self.auto_names = {'smt': set(), 'z3': set()}
        self.seen_z3 = set()            # names the z3 back end was ever asked for
        self.made = 0
        self.werror = plan.get('werror')

    def bad(self, kind, msg, **info):
        if kind in self.report:
            self.ctx.violation(kind, msg, **info)

    def tick(self):
        self.clock += 1
        return self.clock

    def type_of(self, T):
        k, n = T
        if k == 'SMTFPVector':
            return hw.SMTFPVector[2 + n % 3, 3, hw.fp_vector_abc.RoundingMode.RNE, True]
        if k in ('SMTBit', 'z3Bit', 'SMTInt'):
            return getattr(hw, k)
        mod = hw.z3_bit_vector if k.startswith('z3') else hw.smt_bit_vector
        return getattr(mod, k)[n]

    def do(self, tid, op):
        kind = op[1]
        if kind == 'drop':
            self.slots.pop(op[2], None)
        elif kind == 'droperr':
            self.errs.pop(op[2], None)
        elif kind == 'collect':
            self.ctx.collect()
        elif kind == 'raw':
            self.raw(op)
        elif kind == 'derive':
            v = self.slots.get(op[2])
            if v is not None and not isinstance(v, (hw.SMTInt, hw.SMTFPVector)):
                self.slots[op[2] + 'f'] = v == v
        elif kind == 'use':
            try:
                self.use(tid, op)
            except Warning:
                if not self.werror:
                    raise
        elif kind == 'dropuse':
            self.uses.pop(tid, None)
        elif kind == 'new':
            self.new(tid, op)

    def use(self, tid, op):
        """Make values of a variable; none of them holds (or frees) its name."""
        _, _, slot, how, keep = op
        v = self.slots.get(slot)
        if v is None:
            return
        T = type(v)
        z = T.__name__.startswith('z3')
        vec = isinstance(v, hw.AbstractBitVector)
        bit = isinstance(v, hw.AbstractBit)
        y = None
        if how == 'copy':
            y = T(v)
        elif how == 'ccopy':
            y = copy.copy(v)
        elif how == 'repr':
            repr(v), str(v)
        elif how == 'name-value':
            try:
                y = T(v, name='a')
            except TypeError:
                self.ctx.fault('request_rejected')
        elif how == 'fp':
            if isinstance(v, hw.SMTFPVector):
                y = [v.reinterpret_as_bv(), T.reinterpret_from_bv(v.reinterpret_as_bv())]
        elif how == 'int':
            if vec and not z:
                y = hw.SMTInt(v)
        elif vec or bit:
            if how == 'conv' and vec:
                m = hw.z3_bit_vector if z else hw.smt_bit_vector
                y = [getattr(m, f'{"z3" if z else "SMT"}{k}Vector')[v.size](v) for k in ('Bit', 'SInt', 'UInt')]
            elif how == 'op':
                y = [v & v, v == v] + ([v + 1, v - v] if vec else [])
            elif how == 'not':
                y = ~v
            elif how == 'ite':
                y = (v == v).ite(v, T(v))
            elif how == 'slice' and vec:
                y = [v[:], v[0]]
            elif how == 'subst' and not z and hasattr(v, 'substitute'):
                y = v.substitute((v, T(1)))
        self.ctx.probe('variable_used')
        if keep and y is not None:
            self.uses.setdefault(tid, []).append(y)

    # a symbol made directly in the solver by the user
    def raw(self, op):
        import pysmt.shortcuts as smt
        from pysmt.typing import BOOL, BVType, INT
        t = {'BOOL': BOOL, 'INT': INT}.get(op[3]) or BVType(op[3])
        if any(x['end'] is None for x in self.recs):
            return          # pysmt itself does not serialise symbol creation
        rec = {'be': 'smt', 'how': 'raw', 'name': op[2], 'type': t, 'begin': self.tick(), 'end': None, 'ref': None}
        self.recs.append(rec)
        try:
            with self.ctx.atomic():
                smt.Symbol(op[2], t)
            self.ctx.probe('raw_symbol')
        except Exception:
            self.ctx.probe('raw_symbol_refused')
        rec['end'] = self.tick()

    @staticmethod
    def symbols():
        import pysmt.shortcuts as smt
        return smt.get_env().formula_manager.symbols

    def sort_of(self, T):
        from pysmt.typing import BOOL, BVType, INT
        k, n = T
        if k == 'SMTBit':
            return BOOL
        if k == 'SMTInt':
            return INT
        if k == 'SMTFPVector':
            return BVType(1 + 2 + n % 3 + 3)
        return BVType(n)

    def new(self, tid, op):
        _, _, slot, T, how, opt = op
        ctx = self.ctx
        cls = self.type_of(T)
        be = 'z3' if T[0].startswith('z3') else 'smt'
        name = how[1] if how[0] == 'name' else None
        rec = {'be': be, 'how': how[0], 'name': name, 'type': self.sort_of(T), 'T': T, 'begin': None, 'end': None, 'ref': None}
        if opt.get('extra'):
            self.misuse(cls, be, name, opt['extra'])
        # what an explicit name meets when the request starts
        live0 = [x for x in self.recs if x['be'] == be and x['ref'] is not None and x['ref']() is not None]
        before = set(self.symbols()) if be == 'smt' else set(self.seen_z3)
        sort0 = self.symbols()[name].symbol_type() if be == 'smt' and name in self.symbols() else None
        live0_names = {x['sym'] for x in live0}
        del live0
        rec['begin'] = self.tick()
        self.recs.append(rec)
        if 'fail' in opt:
            ARMED[tid] = opt['fail']
        err = None
        v = None
        # the previous holder of the slot goes only after the request
        try:
            if name is not None:
                v = cls(name=name)
            elif how[0] == 'prefix':
                v = cls(prefix=how[1])
            else:
                v = cls()
        except (ValueError, TypeError, BackendError, Warning) as e:
            err = e
        finally:
            fired = 'fail' in opt and tid not in ARMED
            ARMED.pop(tid, None)
        if err is None:
            with ctx.atomic():
                rec['sym'] = self.sym(be, v)
                rec['ref'] = weakref.ref(v)
        rec['end'] = self.tick()
        ctx.note('new', op[0], T, how, type(err).__name__ if err else rec['sym'])
        if err is not None:
            self.failed(rec, err, fired, live0_names, sort0, how, T)
            if opt.get('cycle'):
                err.me = err
            self.errs[slot] = err
            return
        self.made += 1
        sym = rec['sym']
        if be == 'z3':
            self.seen_z3.add(sym)
        # no two live variables share a name
        for x in self.recs:
            if x is not rec and x['be'] == be and x['ref'] is not None:
                o = x['ref']()
                if o is not None and x['sym'] == sym:
                    self.bad('duplicate', f'two live symbolic variables are named {sym!r}',
                             how=[x['how'], how], T=T)
        if name is not None:
            if sym != name:
                self.bad('other-symbol', f'a variable requested as {name!r} denotes {sym!r}', T=T)
        else:
            if sym in self.auto_names[be]:
                self.bad('reused', f'the automatic name {sym!r} was given out before', T=T, how=how)
            elif sym in before and not AUTO_LIKE.fullmatch(sym):
                self.bad('captured', f'the automatic name {sym!r} denotes a solver variable made earlier', T=T, how=how)
            elif sym in before and any(x['how'] == 'raw' and x['name'] == sym and x['end'] < rec['begin']
                                       for x in self.recs if x['end']) and be == 'smt' \
                    and not any(x['how'] == 'name' and x['name'] == sym for x in self.recs):
                self.bad('captured', f'the automatic name {sym!r} denotes a solver variable made earlier', T=T, how=how)
            elif not AUTO_LIKE.fullmatch(sym) and any(
                    x['how'] == 'name' and x['be'] == be and x['name'] == sym and x['ref'] is not None and x['end']
                    for x in self.recs):
                # (had it been made after this one, it would have been refused)
                self.bad('captured', f'the automatic name {sym!r} denotes a variable made meanwhile', T=T, how=how)
            self.auto_names[be].add(sym)
        with ctx.atomic():
            ok = self.sort_ok(be, T, v)
        if not ok:
            self.bad('other-symbol', f'the variable {sym!r} has the wrong sort', T=T)
        if opt.get('cycle'):
            v.me = v                     # only the collector frees it
            ctx.probe('cyclic_variable')
        self.slots[slot] = v

    @staticmethod
    def sym(be, v):
        if isinstance(v, hw.SMTFPVector):
            v = v.reinterpret_as_bv()
        return v.value.symbol_name() if be == 'smt' else v.value.decl().name()

    def sort_ok(self, be, T, v):
        if isinstance(v, hw.SMTFPVector):
            v = v.reinterpret_as_bv()
        if be == 'smt':
            return v.value.get_type() == self.sort_of(T)
        s = v.value.sort()
        return s.name() == 'Bool' if T[0] == 'z3Bit' else s.size() == T[1]

    def failed(self, rec, err, fired, live0, sort0, how, T):
        """Was the library right to refuse?"""
        if isinstance(err, BackendError):
            if not fired:
                raise err
            return
        overlap = [x for x in self.recs if x is not rec and x['be'] == rec['be']
                   and (x['end'] is None or x['end'] >= rec['begin'])]
        if rec['how'] != 'name':
            self.bad('refused-auto', f'creating an automatically named variable failed: {type(err).__name__}: {err}',
                     how=how, T=T)
            return
        name = rec['name']
        if isinstance(err, Warning):
            if not (self.werror and AUTO_LIKE.fullmatch(name)):
                self.bad('refused', f'a request for the name {name!r} failed: {err}', T=T)
            return
        if sort0 is not None and sort0 != rec['type']:
            return                       # the solver knows it with another sort
        if any(x['name'] == name and x['type'] != rec['type'] for x in overlap) and isinstance(err, TypeError):
            return
        if any(x['how'] in ('auto', 'prefix') and x.get('sym', name) == name for x in overlap):
            return
        if name in live0:
            return
        if any(x['name'] == name for x in overlap):
            return
        self.bad('refused', f'the name {name!r} is held by no live variable but was refused: '
                 f'{type(err).__name__}: {err}', T=T,
                 history=[[x['how'], x['begin'], x['end'], x['ref'] is not None] for x in self.recs
                          if x['name'] == name or x.get('sym') == name][-6:])

    def release(self):
        """The caller lets go of everything: every explicit name is free again."""
        self.slots.clear()
        self.uses.clear()
        self.errs.clear()
        self.ctx.collect()
        for x in self.recs:
            if x['how'] != 'name' or x['ref'] is None or (self.werror and AUTO_LIKE.fullmatch(x['name'])):
                continue
            try:
                v = self.type_of(x['T'])(name=x['name'])
            except ValueError as e:
                self.bad('name-kept', f'the name {x["name"]!r} stays taken after its variable was dropped: {e}',
                         T=x['T'])
                continue
            with self.ctx.atomic():
                sym = self.sym(x['be'], v)
            if sym != x['name']:
                self.bad('other-symbol', f'a variable requested as {x["name"]!r} denotes {sym!r}')
            del v
            self.ctx.probe('name_reused')

    def misuse(self, cls, be, name, how):
        """Requests the library must reject; they must not take the name."""
        try:
            if how == 'bothnames':
                v = cls(name=name or 'a', prefix='p')
            elif how == 'named-value':
                v = cls(1, name=name or 'a')
            else:
                v = cls(name=7)
        except (TypeError, ValueError) as e:
            self.errs[f'misuse{len(self.errs)}'] = e
            self.ctx.fault('request_rejected')


def run(ctx, plan, report):
    global CTX
    CTX = ctx
    ARMED.clear()
    warnings.simplefilter('error' if plan.get('werror') else 'ignore')
    w = World(ctx, plan, report)
    ctx.clients(plan['clients'], w.do)
    w.release()
    ctx.nontrivial = w.made >= 2
