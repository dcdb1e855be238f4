"""One zygote: a pristine interpreter with hwtypes imported, forked per run.

Usage (internal): python -m sim.runner  < JSON request on stdin
  {"cmd": "batch", "prop", "seed", "tier", "batch", "first", "count", "salt"}
  {"cmd": "replay", "prop", "salt", "items": [{"plan", "decisions", "run_salt"}]}
  {"cmd": "minimise", "prop", "salt", "case": {...}, "budget_s"}
Writes one JSON line per run on stdout, then {"done": n}.
"""
import contextlib
import hashlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import kernel as K
from . import seams

RUN_TIMEOUT = float(os.environ.get('VERIF_RUN_TIMEOUT', '120'))


class Ctx:
    """What a property's run() gets."""

    def __init__(self, prop, plan, kernel):
        self.prop = prop
        self.plan = plan
        self.k = kernel
        self.nontrivial = False
        self._fd = None

    # -- reporting
    def violation(self, kind, msg, **info):
        e = K.Violation(msg, **info)
        e.kind = kind
        raise e

    def check(self, cond, kind, msg, **info):
        if not cond:
            self.violation(kind, msg, **info)

    def note(self, *what):
        self.k.note(*what)

    def fault(self, kind):
        self.k.fault(kind)

    def probe(self, kind):
        self.k.probe(kind)

    def collect(self):
        self.fault('gc_explicit')
        self.k.collect()

    def yield_point(self, where='cb'):
        self.k.yield_point(where)

    @contextlib.contextmanager
    def atomic(self):
        """The harness observes: no preemption, no collection."""
        c = self.k.cur
        if c is None:
            yield
            return
        c.frozen += 1
        try:
            yield
        finally:
            c.frozen -= 1

    # -- concurrent phase
    def clients(self, scripts, exec_op, locals_=None):
        """scripts: list of op lists [id, kind, ...]; exec_op(tid, op)."""
        def mk(tid, ops):
            def fn():
                for op in ops:
                    self.k.op_begin(op[0])
                    exec_op(tid, op)
            return fn
        self.k.run([mk(i, s) for i, s in enumerate(scripts)], self.fail)

    def fail(self, e):
        self._finish(_error_result(self, e))

    def _finish(self, res):
        k = self.k
        res.update(steps=k.steps, switches=k.switches, gcs=k.gcs, blocks=k.blocks,
                   faults=k.faults, probes=k.probes, trace=k.digest(),
                   sched=k.sched_digest(), nontrivial=bool(self.nontrivial))
        if res.get('viol') or self.want_log:
            res['decisions'] = k.plan if k.plan is not None else k.log
        if k.events is not None:
            res['events'] = k.events
        data = json.dumps(res, default=str).encode()
        os.set_blocking(self._fd, True)
        off = 0
        while off < len(data):
            off += os.write(self._fd, data[off:])
        os.close(self._fd)
        os._exit(0)


def _error_result(ctx, e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    if isinstance(e, K.Violation):
        kind = getattr(e, 'kind', None) or e.msg.split(':')[0]
        return {'viol': {'kind': kind, 'msg': e.msg, 'info': e.info}}
    # an exception nobody expected.  Raised by the code under test (the deepest
    # frame that is its or ours is its) -> the operation did not complete;
    # raised by the harness -> an error of the check
    mine = os.path.dirname(os.path.realpath(__file__)) + os.sep
    repo = os.path.realpath(seams.REPO) + os.sep
    lib = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        if name == mine + 'solverfault.py' or f.name == 'wrapped':
            pass                # wrappers around the solver's functions
        elif name.startswith(mine):
            lib = False
        elif name.startswith(repo):
            lib = True
    if lib and not isinstance(e, (SystemExit, KeyboardInterrupt)) and type(e).__name__ != 'HarnessError':
        return {'viol': {'kind': f'unexpected-{type(e).__name__}',
                         'msg': f'an operation that must succeed raised {type(e).__name__}: {e}',
                         'info': {'traceback': tb[-6:]}}}
    if isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError)):
        # the harness could not use what an operation returned
        return {'viol': {'kind': f'unusable-{type(e).__name__}',
                         'msg': f'observing the outcome of an operation raised {type(e).__name__}: {e}',
                         'info': {'traceback': tb[-6:]}}}
    return {'error': ''.join(tb)[-6000:]}


def _stuck(pid):
    """Why a run that takes too long will never end ('' if the machine may just be slow)."""
    try:
        f = open(f'/proc/{pid}/stat').read().rpartition(')')[2].split()
    except OSError:
        return ''
    cpu = (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    if cpu > RUN_TIMEOUT / 2:
        return f'it used {cpu:.0f} s of processor time'
    if f[0] == 'S':
        return 'it waits for something that is not under the simulator'
    return ''


def execute(prop, case, want_log=False, want_events=False):
    """Fork, run one case, return its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            seams.HASHES.salt = case['run_salt']
            cfg = case['plan'].get('cfg', {})
            if case.get('decisions') is not None:
                k = K.Kernel(cfg, decisions=case['decisions'])
            else:
                k = K.Kernel(cfg, rng=K.rng_of('sched', case['run_salt']))
            if want_events:
                k.events = []
            ctx = Ctx(prop, case['plan'], k)
            ctx._fd = w
            ctx.want_log = want_log
            seams.RANDOM.seed(K.seed_of('random', case['run_salt']))
            if cfg.get('gran', 'line') != 'none':
                seams.instrument(cfg.get('gran', 'line'))
            try:
                prop.run(ctx, case['plan'])
            except BaseException as e:
                ctx._finish(_error_result(ctx, e))
            ctx._finish({'viol': None})
        except BaseException:
            try:
                os.write(w, json.dumps({'error': traceback.format_exc()[-6000:]}).encode())
            finally:
                os._exit(3)
    os.close(w)
    buf = []
    deadline = time.monotonic() + RUN_TIMEOUT
    res = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            stuck = _stuck(pid)
            os.kill(pid, signal.SIGKILL)
            msg = f'run exceeded {RUN_TIMEOUT} s of wall time'
            res = {'error': msg}
            if stuck:
                # normal runs take well below a second
                zero = dict.fromkeys(('steps', 'switches', 'gcs', 'blocks'), 0)
                res = {'viol': {'kind': 'hang', 'msg': f'the run never ended: {stuck}', 'info': {}}, 'faults': {},
                       'probes': {}, 'trace': '', 'sched': '', 'nontrivial': False,
                       'decisions': None, **zero}      # replayed from its seed
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf.append(d)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if res is None:
        try:
            res = json.loads(b''.join(buf))
        except ValueError:
            res = {'error': f'run died without a result (status {status})'}
    return res


def make_case(prop, seed, tier, i):
    run_salt = K.seed_of('run', seed, prop.ID, i)
    plan = prop.generate(K.rng_of('gen', run_salt), tier)
    # plans are JSON: what a replay file holds is exactly what ran
    plan = json.loads(json.dumps(plan))
    return {'i': i, 'run_salt': run_salt, 'plan': plan}


def plan_digest(plan):
    return hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).hexdigest()


def n_ops(plan):
    return sum(len(c) for c in plan.get('clients', [])) + len(plan.get('setup', []))


def load_prop(pid):
    import importlib
    return importlib.import_module(f'sim.props.{pid.lower()}')


def main():
    req = json.loads(sys.stdin.read())
    seams.install(req['salt'])
    prop = load_prop(req['prop'])
    if hasattr(prop, 'prepare'):
        prop.prepare()
    seams.finish_install()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)

    def emit(o):
        out.write(json.dumps(o, default=str) + '\n')
        out.flush()

    if req['cmd'] == 'batch':
        n = 0
        stop = time.monotonic() + req.get('wall_s', 1e9)
        for i in range(req['first'], req['first'] + req['count']):
            if time.monotonic() > stop:
                break
            case = make_case(prop, req['seed'], req['tier'], i)
            res = execute(prop, case, want_log=req.get('want_log', False))
            n += 1
            res.update(i=i, plan_id=plan_digest(case['plan']), ops=n_ops(case['plan']))
            if res.get('viol') or res.get('error') or req.get('want_plan'):
                res['case'] = case
            elif i == req['first']:
                res['sample'] = {'i': i, 'plan': case['plan'], 'sched': res['sched'],
                                 'switches': res['switches'], 'gcs': res['gcs'],
                                 'faults': res['faults']}
            emit(res)
            if res.get('viol') or res.get('error'):
                break
        emit({'done': n})
    elif req['cmd'] == 'replay':
        for case in req['items']:
            emit(execute(prop, case, want_log=True, want_events=req.get('events', False)))
        emit({'done': len(req['items'])})
    elif req['cmd'] == 'minimise':
        from .minimise import minimise
        emit(minimise(prop, req['case'], req['kind'], req.get('budget_s', 60), execute))
        emit({'done': 1})


if __name__ == '__main__':
    main()
