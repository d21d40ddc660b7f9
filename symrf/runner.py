"""Runs the cases of a check and decides them.

Every case runs in its own process: the harness is executed symbolically on
all paths within the limits, the statements made on each path are decided by
the solver, and models (counterexamples and one witness per path) are replayed
against the unpatched code in a process that never saw a symbolic value.
"""
import copy
import json
import os
import pickle
import signal
import struct
import sys
import time
import traceback
import warnings
from fractions import Fraction

import z3

from symrf import engine as E
from symrf.engine import Engine, PathAbort, Unsupported

REPO = os.environ.get('RF_REPO', '/repo')


class Case(object):
    """One harness with its limits

    fn(ctx): harness; bounds: text describing the bounds of the inputs;
    time: seconds for exploration; paths: maximal number of paths;
    random: number of additional concrete runs with random inputs
    """

    def __init__(self, name, fn, bounds='', time=60, paths=4000, random=3,
                 timeout_ms=5000, stubs=(), nlsat=True, symbolic=True):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.time, self.paths, self.random = time, paths, random
        self.timeout_ms, self.stubs = timeout_ms, list(stubs)
        self.nlsat = nlsat
        self.symbolic = symbolic


# ---------------------------------------------------------------------------
# concrete runs

def run_concrete(case, values, choices, seed=None):
    from symrf.ctx import ConCtx, AssumptionFailed
    ctx = ConCtx(values, choices, seed)
    res = {'status': 'ok', 'failed': [], 'values': ctx.used,
           'choices': ctx.used_choices}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(ctx)
    except AssumptionFailed:
        res['status'] = 'assumption'
    except Exception as ex:
        res['status'] = 'exception'
        tb = traceback.extract_tb(ex.__traceback__)
        inrf = [t for t in tb if t.filename.startswith(REPO + '/rf')]
        res['failed'] = [('exception', '%s: %s (%s)' % (
            type(ex).__name__, ex,
            '%s:%d' % (inrf[-1].name, inrf[-1].lineno) if inrf else '-'))]
        res['trace'] = traceback.format_exc()
        res['inrf'] = bool(inrf)
        if isinstance(ex, (AttributeError, ImportError)) and tb and not \
                tb[-1].filename.startswith(REPO + '/rf') and "'rf" in str(ex):
            # the harness uses an internal which is not there (any more)
            res['status'] = 'assumption'
            res['failed'] = []
    if res['status'] == 'ok':
        res['failed'] = ctx.failed[:10]
    res['nchecks'] = ctx.nchecks
    res['known'] = getattr(ctx, 'known', [])
    return res


def _send(f, obj):
    d = pickle.dumps(obj)
    f.write(struct.pack('<q', len(d)) + d)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return pickle.loads(f.read(struct.unpack('<q', h)[0]))


class ConcreteServer(object):
    """pristine process which forks for every concrete run"""

    def __init__(self, case, limit=60):
        self.case = case
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            self.serve(os.fdopen(r1, 'rb'), os.fdopen(w2, 'wb'), limit)
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')

    def serve(self, rd, wr, limit):
        while True:
            req = _recv(rd)
            if req is None:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(limit)
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                    res = run_concrete(self.case, *req)
                    with os.fdopen(w, 'wb') as f:
                        _send(f, res)
                except BaseException as ex:
                    try:
                        with os.fdopen(w, 'wb') as f:
                            _send(f, {'status': 'error', 'failed': [],
                                      'values': {}, 'choices': {},
                                      'nchecks': 0, 'error': repr(ex)})
                    except BaseException:
                        pass
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                res = _recv(f)
            os.waitpid(pid, 0)
            if res is None:
                res = {'status': 'timeout', 'failed': [], 'values': {},
                       'choices': {}, 'nchecks': 0}
            _send(wr, res)

    def run(self, values, choices, seed=None):
        _send(self.w, (values, choices, seed))
        res = _recv(self.r)
        if res is None:
            res = {'status': 'error', 'failed': [], 'values': {},
                   'choices': {}, 'nchecks': 0}
        return res

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)


# ---------------------------------------------------------------------------
# models

def _val(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    try:
        return v.as_fraction()
    except Exception:
        return Fraction(0)


def model_values(eng, ctx, model):
    import math
    if not isinstance(model, E.Model):
        model = E.Model(model)
    vals = {}
    for name, at in eng.vars.items():
        if name.startswith('fresh_'):
            continue
        vals[name] = float(_val(model.eval(at.z, model_completion=True)))
        k = E.TABLE.index.get(('cos', at.id))
        if k is not None and k.id in eng.active:
            c = float(_val(model.eval(k.z, model_completion=True)))
            s = float(_val(model.eval(k.meta.z, model_completion=True)))
            a = math.degrees(math.atan2(s, c))
            lo = -360 if at.lo is None else at.lo
            hi = 360 if at.hi is None else at.hi
            while a < lo:
                a += 360
            while a > hi:
                a -= 360
            vals[name] = a
    return vals


def shrink(z, eps, pos=True):
    """condition which implies z (or its negation) with some margin"""
    k = z.decl().kind()
    if k == z3.Z3_OP_NOT:
        return shrink(z.arg(0), eps, not pos)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        parts = [shrink(c, eps, pos) for c in z.children()]
        conj = (k == z3.Z3_OP_AND) == pos
        return z3.And(parts) if conj else z3.Or(parts)
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and \
            z3.is_real(z.arg(0)):
        a, b = z.children()
        less = k in (z3.Z3_OP_LT, z3.Z3_OP_LE)
        if less == pos:
            return a <= b - eps
        return a >= b + eps
    if k == z3.Z3_OP_EQ and z3.is_real(z.arg(0)) and not pos:
        a, b = z.children()
        return z3.Or(a <= b - eps, a >= b + eps)
    return z if pos else z3.Not(z)


# ---------------------------------------------------------------------------

class CaseRun(object):
    def __init__(self, case, seed, verbose=False):
        self.case = case
        self.seed = seed
        self.verbose = verbose
        self.near = None
        self.res = {
            'name': case.name, 'bounds': case.bounds, 'paths': 0,
            'aborted': 0, 'unsupported': {}, 'exceptions': {}, 'checks': 0,
            'solver_checks': 0, 'inconclusive': [], 'violations': [],
            'spurious': [], 'unconfirmed': [], 'validated': 0, 'random_runs': 0,
            'discharged': 0, 'samples': [], 'functions': [], 'witness': 0,
            'stubs': case.stubs, 'known': []}

    def log(self, *args):
        if self.verbose:
            print('   ', *args, flush=True)

    def run(self):
        t0 = time.time()
        res = self.res
        self.server = ConcreteServer(self.case)
        self.funcs = set()
        eng = None
        if self.case.symbolic:
            eng = self.explore()
        # random concrete runs; more if exploration was not conclusive
        n = 0 if os.environ.get('RF_NORANDOM') else self.case.random
        weak = (res['unsupported'] or res['spurious'] or
                res['inconclusive'] or res['exceptions'] or
                (eng is not None and eng.truncated))
        if weak:
            n = n and max(n, 20)
        tries = 0
        while n > 0 and tries < 5 * n + 20 and not res['violations']:
            tries += 1
            r = self.server.run({}, {}, '%s-%d' % (self.seed, tries))
            if r['status'] == 'assumption':
                continue
            n -= 1
            res['random_runs'] += 1
            self.take_known(r)
            if r['failed']:
                self.decide_near(r)
        self.server.close()
        res['wall_s'] = time.time() - t0
        return res

    def take_known(self, r):
        for k in r.get('known', []):
            if k not in self.res['known']:
                self.res['known'].append(k)

    def decide_near(self, r):
        """a concrete run failed, explore its vicinity symbolically

        The run only directs the search.  It is reported itself if the solver
        gives no answer for its path."""
        case = copy.copy(self.case)
        case.time, case.paths = min(case.time, 30), 100
        near = CaseRun(case, self.seed, self.verbose)
        near.near = r['choices'], r['values']
        near.server = self.server
        near.funcs = set()
        res = near.res
        eng = near.explore() if case.symbolic else None
        if res['violations']:
            for v in res['violations']:
                v['origin'] += ' (in the vicinity of a random run)'
            self.res['violations'].extend(res['violations'])
        elif eng is None or eng.truncated or res['unsupported'] or \
                res['inconclusive'] or res['exceptions'] or res['spurious']:
            self.candidate(r, 'random run, its path is not decided')
        else:
            self.res['unconfirmed'].append(r['failed'][0])
            self.log('not confirmed', r['failed'])

    def candidate(self, r, origin):
        self.res['violations'].append(
            {'case': self.case.name, 'failed': [list(f) for f in r['failed']],
             'values': r['values'], 'choices': r['choices'],
             'origin': origin, 'trace': r.get('trace', '')[-1500:]})

    # -- symbolic exploration
    def explore(self):
        case, res = self.case, self.res
        from symrf import array, utc
        from symrf.ctx import SymCtx
        E.reset_table()
        array.install()
        utc.install()
        mon = Monitor(self.funcs)
        t0 = time.time()
        eng = Engine(max_paths=case.paths, timeout_ms=case.timeout_ms,
                     deadline=t0 + case.time)
        res['stats'] = eng.stats
        self.eng = eng
        self.nval = 0

        def alarm(sig, frame):
            eng.truncated = True
            signal.setitimer(signal.ITIMER_REAL, 2)
            raise PathAbort('time limit')
        signal.signal(signal.SIGALRM, alarm)

        def path(e):
            ctx = SymCtx(e, self.near)
            self.ctx = ctx
            status, info = 'ok', ''
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    case.fn(ctx)
            except PathAbort as ex:
                status, info = 'abort', str(ex)
            except Unsupported as ex:
                status, info = 'unsupported', str(ex)
                if self.verbose:
                    traceback.print_exc()
            except (RecursionError, MemoryError) as ex:
                status, info = 'unsupported', type(ex).__name__
                if self.verbose:
                    print(traceback.format_exc()[-1500:])
            except Exception as ex:
                status, info = 'exception', '%s: %s' % (type(ex).__name__, ex)
                if self.verbose:
                    traceback.print_exc()
            try:
                self.finish_path(e, ctx, status, info)
            except PathAbort as ex:
                res['aborted'] += 1
            except z3.Z3Exception as ex:
                res['inconclusive'].append('solver: %s' % ex)

        signal.setitimer(signal.ITIMER_REAL, case.time + 5)
        stop = False
        try:
            for _ in eng.explore(path):
                if res['violations'] or len(res['spurious']) > 30:
                    stop = True
                    break
        except PathAbort:
            eng.truncated = True
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            E.ENGINE = None
            mon.stop()
            array.uninstall()
            utc.uninstall()
        res['truncated'] = eng.truncated or (stop and not res['violations'])
        res['functions'] = sorted(self.funcs)
        res['notes'] = eng.notes
        res['sym_s'] = time.time() - t0
        return eng

    def nlsat(self, zs):
        s = z3.Tactic('qfnra-nlsat').solver() if self.eng.poly == 1 else \
            z3.SolverFor('QF_NRA') if self.eng.nonlinear else z3.Solver()
        s.set('timeout', 2 * self.case.timeout_ms)
        for z in zs:
            s.add(z)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        self.eng.stats.queries += 1
        self.eng.stats.solver_s += time.time() - t
        return r, s

    def query(self, z):
        """sat/unsat/unknown of path condition and z, with model"""
        e = self.eng
        if e.boxes:
            # intervals of the lines instead of all conditions of the path
            r, s = self.nlsat(e.box_conditions() + [z])
            if r == 'unsat':
                return r, None
        r = e.check(z)
        if r == 'sat':
            return r, e.found.model()
        if r == 'unknown' and self.case.nlsat:
            r, s = self.nlsat(e.pc + [z])
            if r == 'sat':
                return r, s.model()
        return r, None

    def finish_path(self, e, ctx, status, info):
        res = self.res
        if status == 'abort':
            res['aborted'] += 1
            return
        e.stats.paths += 1
        res['paths'] += 1
        if status == 'unsupported':
            res['unsupported'][info] = res['unsupported'].get(info, 0) + 1
            self.replay_path(ctx, 'path not supported', 1)
            return
        if status == 'exception':
            res['exceptions'][info] = res['exceptions'].get(info, 0) + 1
            self.log('exception', info)
            if not self.replay_path(ctx, 'exception ' + info, 2):
                res['unsupported']['symbolic only exception ' + info] = 1
            return
        checks = ctx.checks
        res['checks'] += len(checks)
        const = [c for c in checks if c.neg is True]
        syms = [c for c in checks if not isinstance(c.neg, bool)]
        res['discharged'] += len([c for c in checks if c.neg is False])
        if const:
            # violated for all inputs of this path
            if self.feasible():
                if self.replay_path(ctx, 'statement "%s"' % const[0].label,
                                    2):
                    return
                res['spurious'].append(const[0].label)
                self.log('spurious const', const[0].label)
            return
        if syms:
            res['solver_checks'] += len(syms)
            if not self.decide(ctx, syms):
                return
        if checks:
            m = None
            if res['witness'] < 1 or self.nval < 8 or \
                    (res['paths'] % 10 == 0 and self.nval < 40):
                self.nval += 1
                if self.replay_path(ctx, 'path witness', 1):
                    return
            elif e._ensure_model() is not None:
                res['witness'] += 1

    def feasible(self):
        e = self.eng
        if e.model is not None:
            return True
        r, m = self.query(z3.BoolVal(True))
        if r == 'sat':
            e.model = m if m is None or isinstance(m, E.Model) else E.Model(m)
        return r != 'unsat'

    def decide(self, ctx, syms, depth=0):
        """False if a violation has been found"""
        res = self.res
        r, m = self.query(z3.Or([c.neg for c in syms]))
        if r == 'unsat':
            res['discharged'] += len(syms)
            return True
        if r == 'unknown':
            ok = True
            if len(syms) == 1:
                res['inconclusive'].append(syms[0].label)
                self.log('inconclusive', syms[0].label)
                return True
            left = max(5., self.eng.deadline - time.time())
            for c in syms:
                if self.eng.deadline - time.time() < 0:
                    res['inconclusive'].append(c.label)
                    continue
                if not self.decide(ctx, [c], depth + 1):
                    return False
            return True
        # counterexample; first one with margin and inside of path condition
        m = E.Model(m) if not isinstance(m, E.Model) else m
        bad = [c for c in syms
               if z3.is_true(m.eval(c.neg, model_completion=True))]
        label = (bad or syms)[0].label
        self.log('counterexample', label)
        negm = z3.Or([c.negm if c.negm is not None else c.neg for c in syms])
        inter = [(shrink(z, 1e-3), shrink(z, 1e-6)) for z in self.branches()]
        defs = self.eng.pc
        interior = False
        for level in (0, 1):
            for goal in (negm, z3.Or([c.neg for c in syms])):
                s = z3.Solver()
                s.set('timeout', self.case.timeout_ms)
                s.add(*defs)
                s.add(*[i[level] for i in inter])
                s.add(goal)
                rr = str(s.check())
                if rr == 'unknown' and self.case.nlsat:
                    rr, s = self.nlsat(list(defs) +
                                       [i[level] for i in inter] + [goal])
                if rr == 'sat':
                    interior = True
                    if self.replay(ctx, s.model(), 'counterexample to "%s"'
                                   % label):
                        return False
                    break
            if interior:
                break
        if self.replay(ctx, m, 'counterexample to "%s"' % label):
            return False
        if interior:
            res['spurious'].append(label)
            self.log('spurious', label)
        else:
            res['inconclusive'].append('boundary only: ' + label)
            self.log('boundary only', label)
        # other statements on this path
        if depth < 8:
            rest = [c for c in syms if c not in bad] if bad else []
            if rest:
                return self.decide(ctx, rest, depth + 1)
        return True

    def branches(self):
        return self.eng.branch_pc

    def replay(self, ctx, model, origin):
        vals = model_values(self.eng, ctx, model)
        r = self.server.run(vals, dict(ctx.choices))
        self.take_known(r)
        if r['failed']:
            self.candidate(r, origin)
            self.log('REPRODUCED', r['failed'], r['values'], r['choices'])
            if r.get('trace'):
                self.log(r['trace'])
            return True
        if r['status'] in ('error', 'timeout'):
            self.log('replay', r)
        if r['status'] == 'ok':
            self.res['validated'] += 1
            if len(self.res['samples']) < 3:
                self.res['samples'].append(
                    {'case': self.case.name, 'values': r['values'],
                     'choices': r['choices'], 'statements': r['nchecks']})
        return False

    def replay_path(self, ctx, origin, level=1):
        """run the code with values of this path, True if it fails"""
        e = self.eng
        try:
            models = []
            e.solver.push()
            for z in self.branches():
                e.solver.add(shrink(z, 1e-3))
            if e.check() == 'sat':
                models.append(e.found.model())
            e.solver.pop()
            if not models or level > 1:
                m = e._ensure_model()
                if m is not None:
                    models.append(m)
        except PathAbort:
            return False
        if models:
            self.res['witness'] += 1
        for m in models:
            if self.replay(ctx, m, origin):
                return True
        return False


class Monitor(object):
    """records the functions of rf which are executed"""
    TOOL = 3

    def __init__(self, funcs):
        self.on = False
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        prefix = REPO + '/rf/'

        def start(code, offset):
            if code.co_filename.startswith(prefix):
                funcs.add('%s:%s' % (code.co_filename[len(REPO) + 1:],
                                     code.co_qualname))
            return mon.DISABLE
        try:
            mon.use_tool_id(self.TOOL, 'symrf')
            mon.register_callback(self.TOOL, mon.events.PY_START, start)
            mon.set_events(self.TOOL, mon.events.PY_START)
            mon.restart_events()
            self.on = True
        except ValueError:
            pass

    def stop(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)


# ---------------------------------------------------------------------------
# all cases of a check

def run_cases(cases, seed, jobs=8, verbose=False, hard=60, confirm=None):
    """run cases in parallel processes, list of results"""
    todo = list(enumerate(cases))
    results = [None] * len(cases)
    running = {}
    killed = set()
    while todo or running:
        while todo and len(running) < jobs:
            i, case = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    out = CaseRun(case, seed, verbose).run()
                    out['stats'] = dict(vars(out['stats'])) \
                        if 'stats' in out else {}
                except BaseException:
                    out = {'name': case.name, 'error': traceback.format_exc()}
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = (i, r, time.time(), [])
        import select
        fds = {v[1]: p for p, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 1)
        for fd in ready:
            p = fds[fd]
            i, r, t, buf = running[p]
            d = os.read(fd, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(fd)
            os.waitpid(p, 0)
            try:
                results[i] = pickle.loads(b''.join(buf))
            except Exception:
                results[i] = {'name': cases[i].name, 'error': 'no result'}
            del running[p]
            if confirm is not None and results[i].get('violations') and \
                    confirm(results[i]):
                # a violation is confirmed: no need to go on
                todo = []
                for p, (i, r, t, buf) in list(running.items()):
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    os.close(r)
                running = {}
                break
        for p, (i, r, t, buf) in list(running.items()):
            if time.time() - t > cases[i].time + hard + \
                    (300 if i in killed else 0):
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                os.close(r)
                del running[p]
                if i in killed:
                    results[i] = {'name': cases[i].name, 'error': 'killed'}
                else:
                    # the solver does not come back: no exploration
                    killed.add(i)
                    case = copy.copy(cases[i])
                    case.symbolic = False
                    case.random = 20
                    todo.insert(0, (i, case))
    for i in killed:
        if results[i] is not None and 'error' not in results[i]:
            results[i]['truncated'] = True
            results[i]['inconclusive'].append('solver did not come back')
    return [r for r in results if r is not None]
