"""Deterministic scheduler: real threads, one running at a time, seeded choices.

A `Kernel` runs the client threads of one simulated run.  Exactly one client
runs at any moment; the others are parked on raw locks.  At every *event*
(a line, or a bytecode instruction, of instrumented code - see seams.py) the
kernel may, depending on the seed,

  * switch to another client   ("s", target)
  * run a garbage collection   ("g", generation)

and at every boundary between operations it chooses who runs next.  All actions
taken are recorded keyed by (client, operation, event number inside the
operation), so a recorded run can be replayed from its decisions alone and the
decisions can be removed one by one by the minimiser.
"""
import _thread
import gc
import hashlib
import json
import os
import random
import sys

CURRENT = None          # the running Kernel of this process, if any

# raw primitives, taken before seams.py replaces threading.Lock
_allocate_lock = _thread.allocate_lock


class Violation(Exception):
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg = msg
        self.info = info


class Client:
    __slots__ = ('tid', 'fn', 'lock', 'state', 'n', 'opid', 'waiting', 'timeout', 'frozen', 'blks')

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.lock = _allocate_lock()
        self.lock.acquire()
        self.state = 'ready'        # ready | blocked | done
        self.n = 0                  # events in the current operation
        self.opid = '-'
        self.waiting = None
        self.timeout = False
        self.frozen = 0
        self.blks = 0               # times blocked in the current operation


class Kernel:
    MAX_STEPS = 4_000_000
    MAX_OP_STEPS = 1_500_000

    def __init__(self, cfg, rng=None, decisions=None):
        """cfg: {'p_switch': float, 'p_gc': float, 'p_op': float}
        rng: record mode; decisions: replay mode, {"tid/op/n": [action...]}"""
        self.cfg = cfg
        self.rng = rng
        self.plan = decisions
        self.log = {}
        self.clients = []
        self.cur = None
        self.halted = False
        self.steps = 0
        self.switches = 0
        self.gcs = 0
        self.blocks = 0
        self.faults = {}
        self.probes = {}
        self.seen = {}              # (client, operation) -> times begun
        self._trace = hashlib.blake2b(digest_size=12)
        self._sched = hashlib.blake2b(digest_size=12)
        self.events = None          # optional full text log
        self.main_lock = _allocate_lock()
        self.main_lock.acquire()
        self.on_deadlock = None
        self.p_switch = cfg.get('p_switch', 0.02)
        self.p_gc = cfg.get('p_gc', 0.0)
        self.p_op = cfg.get('p_op', 0.5)
        self._next = 0
        self._arm()

    # ---- recording ------------------------------------------------------
    def note(self, *what):
        """Append to the event log (never consults the PRNG)."""
        s = json.dumps(what, default=str)
        self._trace.update(s.encode())
        if self.events is not None:
            self.events.append(s)

    def digest(self):
        return self._trace.hexdigest()

    def sched_digest(self):
        return self._sched.hexdigest()

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, kind):
        self.probes[kind] = self.probes.get(kind, 0) + 1

    # ---- choosing -------------------------------------------------------
    def _arm(self):
        """Number of events until the next action (record mode)."""
        p = self.p_switch + self.p_gc
        if self.rng is None or p <= 0:
            self._next = -1
            return
        import math
        u = self.rng.random()
        self._next = 1 + int(math.log(1.0 - u) / math.log(1.0 - min(p, 0.999)))

    def event(self, where):
        """A preemption point of the running client."""
        c = self.cur
        if c is None or c.frozen or self.halted:
            return
        c.n += 1
        self.steps += 1
        if c.n > self.MAX_OP_STEPS or self.steps > self.MAX_STEPS:
            raise self._stuck()
        if self.plan is not None:
            acts = self.plan.get(f'{c.tid}/{c.opid}/{c.n}')
            if acts:
                for a in acts:
                    self._act(a, where)
            return
        if self._next < 0:
            return
        self._next -= 1
        if self._next > 0:
            return
        self._arm()
        p = self.p_switch + self.p_gc
        if self.rng.random() * p < self.p_gc:
            a = ['g', 2]
        else:
            ready = [d.tid for d in self.clients if d.state == 'ready' and d is not c]
            if not ready:
                return
            a = ['s', ready[self.rng.randrange(len(ready))]]
        self.log.setdefault(f'{c.tid}/{c.opid}/{c.n}', []).append(a)
        self._act(a, where)

    def _stuck(self):
        self.halted = True
        return Violation('no progress: an operation did not finish within the step budget',
                         op=self.cur.opid, client=self.cur.tid)

    def _act(self, a, where):
        c = self.cur
        if a[0] == 'g':
            self.gcs += 1
            self._sched.update(f'g{c.tid}@{where}'.encode())
            self.note('gc', c.tid, c.opid, c.n)
            self.collect()
        elif a[0] == 's':
            t = next((d for d in self.clients if d.tid == a[1] and d.state == 'ready'), None)
            if t is None or t is c:
                return
            self.switches += 1
            self._sched.update(f's{c.tid}>{t.tid}@{where}'.encode())
            self.note('switch', c.tid, c.opid, c.n, t.tid)
            self._switch(t)

    def collect(self):
        c = self.cur
        if c is None:
            gc.collect()
            return
        c.frozen += 1
        try:
            gc.collect()
        finally:
            c.frozen -= 1

    def _switch(self, target):
        me = self.cur
        self.cur = target
        target.lock.release()
        me.lock.acquire()

    def _pick(self, tag, default=None):
        """Choose the next client among the ready ones (not at an event)."""
        c = self.cur
        ready = [d for d in self.clients if d.state == 'ready']
        if not ready:
            return None
        key = f'{c.tid}/{c.opid}/{tag}'
        if self.plan is not None:
            for a in self.plan.get(key, ()):
                for d in ready:
                    if d.tid == a[1]:
                        return d
            return default if default in ready else ready[0]
        if self.rng is None or len(ready) == 1:
            return default if default in ready else ready[0]
        if default in ready and self.rng.random() >= self.p_op:
            return default
        d = ready[self.rng.randrange(len(ready))]
        if d is not default:
            self.log.setdefault(key, []).append(['p', d.tid])
        return d

    # ---- operations -----------------------------------------------------
    def op_begin(self, opid):
        """Called by a client before each operation: a scheduling boundary."""
        c = self.cur
        if c is None:
            return
        d = self._pick('end', default=c)
        if d is not None and d is not c:
            self.switches += 1
            self._sched.update(f'p{c.tid}>{d.tid}'.encode())
            self._switch(d)
        k = self.seen[c.tid, opid] = self.seen.get((c.tid, opid), 0) + 1
        c.opid = opid if k == 1 else f'{opid}#{k}'      # a repeated operation
        c.n = 0
        c.blks = 0

    def yield_point(self, where):
        """Explicit preemption point (harness callbacks run inside library code)."""
        if self.cur is not None:
            self.event(where)

    # ---- blocking (simulated locks) --------------------------------------
    def block_on(self, lock, timeout):
        c = self.cur
        c.state = 'blocked'
        c.waiting = lock
        c.timeout = False
        self.blocks += 1
        c.blks += 1                 # it may block again at the same event
        d = self._pick(f'blk{c.n}.{c.blks}')
        if d is None:
            # everybody is blocked: fire a timeout if somebody has one
            if timeout:
                c.state = 'ready'
                c.waiting = None
                return False
            t = next((x for x in self.clients if x.state == 'blocked' and x.timeout == 'armed'), None)
            if t is None:
                c.state = 'ready'
                self.halted = True
                raise Violation('deadlock: every client waits for a lock',
                                clients=[[x.tid, x.opid, x.state] for x in self.clients])
            t.state = 'ready'
            t.waiting = None
            t.timeout = True
            d = t
        if timeout:
            c.timeout = 'armed'
        self._switch(d)
        r = c.timeout is not True
        c.timeout = False
        return r

    def wake(self, lock):
        for c in self.clients:
            if c.state == 'blocked' and c.waiting is lock:
                c.state = 'ready'
                c.waiting = None

    # ---- running ----------------------------------------------------------
    def run(self, fns, on_error):
        """Run the client functions to completion under the schedule."""
        global CURRENT
        self.clients = [Client(i, fn) for i, fn in enumerate(fns)]
        CURRENT = self

        def boot(c):
            c.lock.acquire()
            try:
                c.fn()
            except BaseException as e:          # reported by the harness
                self.halted = True
                on_error(e)
            c.state = 'done'
            d = self._pick('exit')
            if d is None:
                blocked = [x for x in self.clients if x.state == 'blocked']
                if blocked:
                    self.halted = True
                    on_error(Violation('deadlock: remaining clients wait for a lock',
                                       clients=[[x.tid, x.opid, x.state] for x in self.clients]))
                self.cur = None
                self.main_lock.release()
            else:
                self.cur = d
                d.lock.release()

        for c in self.clients:
            _thread.start_new_thread(boot, (c,))
        first = self.clients[0]
        if self.plan is not None:
            for a in self.plan.get('start', ()):
                first = next((c for c in self.clients if c.tid == a[1]), first)
        elif self.rng is not None and len(self.clients) > 1:
            first = self.clients[self.rng.randrange(len(self.clients))]
            self.log['start'] = [['p', first.tid]]
        self.cur = first
        first.lock.release()
        self.main_lock.acquire()
        self.cur = None
        CURRENT = None


def seed_of(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def rng_of(*parts):
    # not random.Random: its seeding is version dependent only for str; ints are stable
    return BASE_RANDOM(seed_of(*parts))


BASE_RANDOM = random.Random
