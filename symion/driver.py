"""Explores the harnesses of one property in parallel and decides it."""
import collections
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv/bin/python'


# ------------------------------------------------------------- global state of the code under test

class StateGuard(object):
    """Restores the mutable module-level state of the package between paths."""

    def __init__(self):
        self.saved = []
        self.seen = set()
        for name, m in list(sys.modules.items()):
            if name.startswith('amazon.') and m is not None:
                self._walk_ns(vars(m))
        from . import loader
        d = loader.get_shim('decimal')
        self.context = d
        self.dec_ctx = d.getcontext().copy()

    def _walk_ns(self, ns):
        for k, v in list(ns.items()):
            if not k.startswith('__'):
                self._walk(v, 0)

    def _walk(self, v, depth):
        from .values import SByteArray, SDict, SSet
        if depth > 6 or id(v) in self.seen:
            return
        t = type(v)
        if t in (int, str, bytes, float, bool, type(None)) or isinstance(v, types.ModuleType):
            return
        if isinstance(v, (list, dict, set, collections.deque)):
            self.seen.add(id(v))
            self.saved.append((v, t, v.copy() if not isinstance(v, list) else list(v)))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                self._walk(x, depth + 1)
            return
        if t is SByteArray:
            self.seen.add(id(v))
            self.saved.append((v, t, list(v.els)))
            return
        if isinstance(v, tuple):
            self.seen.add(id(v))
            for x in v:
                self._walk(x, depth + 1)
        if isinstance(v, types.FunctionType):
            if not (v.__module__ or '').startswith('amazon'):
                return
            self.seen.add(id(v))
            for x in (v.__defaults__ or ()):
                self._walk(x, depth + 1)
            for c in (v.__closure__ or ()):
                try:
                    self._walk(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            if v.__dict__:
                self._walk(v.__dict__, depth + 1)
            return
        if isinstance(v, type):
            if (v.__module__ or '').startswith('amazon'):
                self.seen.add(id(v))
                for k, x in list(vars(v).items()):
                    if not (k.startswith('__') and k.endswith('__')):
                        self._walk(x, depth + 1)
            return
        if isinstance(v, (staticmethod, classmethod)):
            return self._walk(v.__func__, depth + 1)
        if (t.__module__ or '').startswith('amazon') and hasattr(v, '__dict__'):
            self.seen.add(id(v))
            self._walk(v.__dict__, depth + 1)

    def restore(self):
        from .values import SByteArray
        for v, t, s in self.saved:
            if t is SByteArray:
                if v.els != s:
                    v.els[:] = s
            elif isinstance(v, dict):
                if len(v) != len(s) or any(v.get(k, v) is not x for k, x in s.items()):
                    v.clear()
                    v.update(s)
            elif isinstance(v, set):
                if len(v) != len(s) or not all(x in v for x in s):
                    v.clear()
                    v.update(s)
            else:
                if len(v) != len(s) or any(a is not b for a, b in zip(v, s)):
                    v.clear()
                    v.extend(s)
        self.context.setcontext(self.dec_ctx.copy())


# ------------------------------------------------------------------------------------- one worker

_W = {}
PATH_SECONDS = 30.0
SLOW = 'no end within the time of a path'


def _alarm(*a):
    from .engine import ENGINE as E, PathAbort
    if E.active:
        E.dead = E.dead or 'time'
        raise PathAbort('time')


def _worker_init():
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    from .engine import ENGINE
    ENGINE.reset_solver()
    _W.clear()


def _worker_task(specs, tier, si, bundle, slice_s, deadline, want_witness, seed):
    """Explore the prefixes of bundle (a stack) for up to slice_s seconds."""
    import gc
    from .engine import ENGINE as E, PathAbort, PathStop, EngineSignal, Stats
    from . import symh
    import z3
    module, func, params = specs[si]
    mod = importlib.import_module('harness.' + module)
    f = getattr(mod, func)
    if 'guard' not in _W:
        _W['guard'] = StateGuard()
        gc.disable()
    guard = _W['guard']
    if _W.get('si') != si:
        E.new_config()
        _W['si'] = si
        _W['n'] = 0
    E.stats = Stats()
    E.reached = set()
    E.deadline = deadline
    stack = list(bundle)
    t_end = time.time() + slice_s
    failures, witnesses, errors = [], [], []
    rng = random.Random(seed)
    npaths = 0
    h = symh.SymHarness(tier)
    while stack and time.time() < t_end and time.time() < deadline:
        prefix = stack.pop()
        E.begin(prefix)
        status = 'done'
        try:
            try:
                guard.restore()
                signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
                f(h, **params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathStop:
            pass
        except PathAbort as e:
            status = e.reason
        except EngineSignal as e:
            status = 'engine: ' + str(e)
            E.incomplete = True
        except RecursionError:
            status = 'recursion'
            E.incomplete = True
            E.stats.note('path cut: recursion limit')
        except Exception as e:
            if E.dead:
                status = E.dead
            else:
                tb = traceback.extract_tb(e.__traceback__)
                internal = tb and '/symion/' in tb[-1].filename and isinstance(e, (NotImplementedError, AssertionError))
                if internal:
                    status = 'unsupported'
                    E.incomplete = True
                    E.stats.note('unsupported: %s %s' % (type(e).__name__, e))
                else:
                    E.failures.append(('exception ' + type(e).__name__, None))
                    if len(errors) < 20:
                        errors.append(''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        except z3.Z3Exception as e:
            status = 'z3'
            E.incomplete = True
            E.stats.note('z3 exception: %s' % e)
        if E.dead == 'time':
            # the solver may have been interrupted: ask anew, with the decisions taken so far
            E.incomplete = True
            status = 'time'
            if not E.failures:
                E.failures.append((SLOW, None))
            E.model = None
        # alternatives: deepest last so that the solver scopes are reused
        for k, d in E.alternatives:
            stack.append(E.trace[:k] + [d])
        npaths += 1
        _W['n'] += 1
        if status in ('done',):
            E.stats.paths += 1
        elif status in ('infeasible', 'assumption'):
            pass
        else:
            E.stats.aborted += 1
            E.stats.note('aborted: ' + status)
        if E.incomplete:
            E.stats.note('incomplete path')
        if E.failures:
            E.stats.violations += len(E.failures)
            for label, m in E.failures:
                try:
                    if m is None:
                        E.dead = None
                        if time.time() > deadline:
                            E.deadline = None
                        m = E._get_model()
                    if m is None:
                        E.stats.violations -= 1
                        continue
                    failures.append((label, symh.eval_inputs(m)))
                except EngineSignal:
                    E.stats.note('no model for a failure')
        elif status == 'done' and want_witness and (len(witnesses) < 3 or rng.random() < want_witness):
            try:
                m = E._get_model()
                if m is not None:
                    witnesses.append((symh.eval_inputs(m),
                                      [(n, symh.eval_model(m, v)) for n, v in E.observations]))
            except EngineSignal:
                pass
        elif status not in ('done', 'infeasible', 'assumption') and npaths % 5 == 1:
            # a path that could not be followed to its end: at least one input of it is tried
            try:
                E.dead = None
                E.deadline = None
                m = E._get_model()
                if m is not None:
                    witnesses.append((symh.eval_inputs(m), None))
            except EngineSignal:
                pass
        E.end()
        E.deadline = deadline
        if status == 'time':
            E.reset_solver()
            E.scope_trace, E.base_scope = [], False
    gc.collect()
    return si, stack, E.stats, failures[:50], witnesses, errors, sorted(E.reached)


# ----------------------------------------------------------------------------------------- driver

def replay_batch(items, timeout=600):
    """items: list of dicts for replay.py; returns its results (real package, PyPy)."""
    if not items:
        return []
    import tempfile
    d = tempfile.mkdtemp(prefix='symion')
    try:
        n = min(8, 1 + len(items) // 40)
        chunks = [items[i::n] for i in range(n)]
        procs = []
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONHASHSEED'] = '0'
        for i, c in enumerate(chunks):
            a, b = os.path.join(d, 'in%d.json' % i), os.path.join(d, 'out%d.json' % i)
            with open(a, 'w') as f:
                json.dump(c, f)
            procs.append((subprocess.Popen([PYPY, os.path.join(HERE, 'symion', 'replay.py'), a, b], env=env,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT), b))
        outs = []
        for (p, b), c in zip(procs, chunks):
            try:
                log = p.communicate(timeout=timeout)[0]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                log = b'timeout'
            if os.path.exists(b):
                with open(b) as f:
                    outs.append(json.load(f))
            else:
                outs.append([{'outcome': 'error', 'label': 'replay process: ' + log.decode('utf-8', 'replace')[-800:]}
                             for _ in c])
        res = [None] * len(items)
        for i, o in enumerate(outs):
            for j, r in enumerate(o):
                res[i + j * n] = r
        return res
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


class Result(object):
    pass


def explore(specs, tier, budget_s, seed=1, jobs=None, witness_rate=0.05, verbose=False, max_failures=200):
    """specs: list of (module, func, params)."""
    from . import loader
    from .engine import Stats
    loader.install()
    for module in sorted(set(s[0] for s in specs)):
        importlib.import_module('harness.' + module)
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    start = time.time()
    deadline = start + budget_s
    res = Result()
    res.stats = [Stats() for _ in specs]
    res.failures, res.witnesses, res.errors = [], [], []
    res.reached = [set() for _ in specs]
    res.left = [0] * len(specs)
    res.spec_wall = [0.0] * len(specs)
    queue = collections.deque((si, [[]]) for si in range(len(specs)))
    pool = cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_worker_init)
    running = {}
    n = 0
    fair_share = budget_s * jobs / max(1, len(specs))
    try:
        while queue or running:
            now = time.time()
            while queue and len(running) < jobs and now < deadline:
                si, bundle = queue.popleft()
                n += 1
                slice_s = 3.0 if len(queue) >= 2 * jobs else 0.7 if len(queue) + len(running) >= jobs else 0.2
                fut = pool.submit(_worker_task, specs, tier, si, bundle, slice_s, deadline, witness_rate,
                                  seed * 1000003 + n)
                running[fut] = (si, bundle, now)
            if not running:
                break
            done, _ = cf.wait(list(running), timeout=5, return_when=cf.FIRST_COMPLETED)
            for fut in done:
                si0, bundle, t0 = running.pop(fut)
                res.spec_wall[si0] += time.time() - t0
                si, stack, stats, failures, witnesses, errors, reached = fut.result()
                res.stats[si].merge(stats)
                res.reached[si].update(reached)
                for lab, inp in failures:
                    if len(res.failures) < max_failures:
                        res.failures.append((si, lab, inp))
                for w in witnesses:
                    res.witnesses.append((si, w[0], w[1]))
                if len(res.errors) < 50:
                    res.errors.extend(errors)
                if stack:
                    if time.time() >= deadline:
                        res.left[si] += len(stack)
                    else:
                        idle = jobs - len(running) - len(queue)
                        parts = max(1, min(len(stack), idle + 1))
                        for i in range(parts):
                            # shallow prefixes (large subtrees) are spread over the parts
                            if res.spec_wall[si] > fair_share:
                                queue.append((si, stack[i::parts]))       # the others come first
                            else:
                                queue.appendleft((si, stack[i::parts]))
            if time.time() >= deadline and not running:
                break
        for si, bundle in queue:
            res.left[si] += len(bundle)
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        for p in list(getattr(pool, '_processes', {}) or {}):
            pass
    res.wall = time.time() - start
    return res
