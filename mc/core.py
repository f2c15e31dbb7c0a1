"""Engine: bounded, exhaustive, explicit-state exploration of the real implementation.

A *case* is a JSON value that fully describes one transition (a program, a history, a
schedule, ...).  A check module provides

    roots(tier)            -> iterable of cases (level 0)
    run(case, seed, tier)  -> Result
    MAX_LEVEL(tier)        -> number of levels (default 0)

A Result carries the abstract state reached by the execution (`key`), the verdict of the
monitors (`bad`: list of messages), the number of implementation executions that were
compared (`runs`) and the successor cases (`succ`), which the driver explores only if the
state had not been reached before.  Nothing is sampled: every root and every successor of
every new state within the level bound is executed.
"""

import json
import os
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('FOLX_REPO', '/repo')
PY = '/opt/venv/bin/python'


def setup_env():
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ['JAX_ENABLE_X64'] = '1'
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    sys.dont_write_bytecode = True
    fl = os.environ.get('XLA_FLAGS', '')
    if 'multi_thread_eigen' not in fl:
        os.environ['XLA_FLAGS'] = (
            fl + ' --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
        )
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


def setup_jax(stock=False):
    setup_env()
    import logging
    import warnings

    warnings.simplefilter('ignore')
    import jax

    jax.config.update('jax_enable_x64', True)
    import folx

    assert os.path.realpath(folx.__file__).startswith(os.path.realpath(REPO) + os.sep), (
        folx.__file__
    )
    # folx reports on the root logger; keep it quiet and cheap (handlers untouched)
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    if not stock:
        import npx

        npx.install()


@dataclass
class Result:
    key: object = None  # abstract state reached (hashable after json dump), None = none
    bad: list = field(default_factory=list)  # violation messages
    runs: int = 0  # implementation executions compared with the oracle
    succ: list = field(default_factory=list)  # successor cases
    skip: str = ''  # reason the case was not applicable (counted)
    nontrivial: bool = True


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout('execution did not terminate within the time limit')


CASE_LIMIT = 100


def load_check(pid):
    import importlib

    if os.path.join(HERE, 'checks') not in sys.path:
        sys.path.append(os.path.join(HERE, 'checks'))
    return importlib.import_module(pid.lower())


def run_one(mod, case, seed, tier):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        return mod.run(case, seed, tier)
    except CaseTimeout as e:
        return Result(bad=[f'timeout: {e}'], runs=1)
    except Exception as e:  # a monitor must classify; anything else is reported loudly
        tb = traceback.format_exc().strip().splitlines()
        return Result(bad=[f'exception: {type(e).__name__}: {str(e)[:300]} | {tb[-3:]}'], runs=1)
    finally:
        signal.alarm(0)


# --------------------------------------------------------------------------- workers
_W = {}


def _winit(pid, seed, tier, stock):
    setup_jax(stock)
    _W['mod'] = load_check(pid)
    _W['seed'] = seed
    _W['tier'] = tier


def _wrun(cases):
    out = []
    for c in cases:
        t = time.time()
        r = run_one(_W['mod'], c, _W['seed'], _W['tier'])
        out.append((c, r.key, r.bad, r.runs, r.succ, r.skip, r.nontrivial, time.time() - t))
    return out


def n_workers():
    try:
        n = len(os.sched_getaffinity(0))
    except Exception:
        n = os.cpu_count() or 4
    return max(1, min(int(os.environ.get('MC_WORKERS', '8')), n))


class Explorer:
    """Level-synchronous breadth-first exploration with state merging."""

    def __init__(self, pid, tier, seed, stop_after=4, deadline=None, known=()):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.stop_after = stop_after
        self.deadline = deadline
        self.known = {json.dumps(k['case'], sort_keys=True): k for k in known}
        self.known_hit = {}
        self.states = {}
        self.transitions = 0
        self.runs = 0
        self.nontrivial = 0
        self.skips = {}
        self.bad = []  # (case, messages)
        self.levels = []
        self.complete = True
        self.times = []

    def _pool(self):
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor

        return ProcessPoolExecutor(
            n_workers(), mp_context=mp.get_context('spawn'), initializer=_winit,
            initargs=(self.pid, self.seed, self.tier, False),
        )

    def _row(self, row, results):
        c, key, bad, runs, succ, skip, nontriv, dt = row
        results.append(row)
        self.times.append((dt, c))
        if bad:
            kf = self.known.get(json.dumps(c, sort_keys=True))
            if kf is not None:
                self.known_hit[kf['what']] = kf
            else:
                self.bad.append((c, bad))

    def _level(self, frontier, mod):
        """Runs all cases of a level; returns (rows, stopped)."""
        from concurrent.futures import FIRST_COMPLETED, wait
        from concurrent.futures.process import BrokenProcessPool

        nw = n_workers()
        chunk = max(1, min(getattr(mod, 'CHUNK', 6), len(frontier) // (nw * 4) or 1))
        n = (len(frontier) + chunk - 1) // chunk
        # interleave so that neighbours spread over the workers and over time
        todo = [frontier[i::n] for i in range(n)]
        results = []
        died = 0
        while todo:
            pending = {}
            it = list(reversed(todo))
            todo = []
            try:
                while it or pending:
                    while it and len(pending) < nw * 3:
                        ch = it.pop()
                        pending[self.ex.submit(_wrun, ch)] = ch
                    done, _ = wait(pending, return_when=FIRST_COMPLETED)
                    for f in done:
                        rows = f.result()
                        pending.pop(f)
                        for row in rows:
                            self._row(row, results)
                    if len(self.bad) >= self.stop_after or (
                        self.deadline and time.time() > self.deadline
                    ):
                        self.complete = False
                        for f in pending:
                            f.cancel()
                        return results, True
            except BrokenProcessPool:
                # a worker died (out of memory or a crash): isolate the cases
                died += 1
                left = [c for ch in pending.values() for c in ch] + [c for ch in it for c in ch]
                self.ex.shutdown(wait=False, cancel_futures=True)
                self.ex = self._pool()
                if died <= 3:
                    todo = [[c] for c in left]
                else:
                    for c in left[:1]:
                        self.bad.append((c, ['worker process died']))
                    self.complete = False
                    return results, True
        return results, False

    def explore(self, mod):
        max_level = mod.MAX_LEVEL(self.tier) if hasattr(mod, 'MAX_LEVEL') else 0
        frontier = list(mod.roots(self.tier))
        self.ex = self._pool()
        level = 0
        seen_cases = set()
        while frontier:
            uniq = []
            for c in frontier:
                k = json.dumps(c, sort_keys=True)
                if k not in seen_cases:
                    seen_cases.add(k)
                    uniq.append(c)
            results, stopped = self._level(uniq, mod)
            # deterministic merge order
            results.sort(key=lambda r: json.dumps(r[0], sort_keys=True))
            new_states, nxt = 0, []
            for c, key, bad, runs, succ, skip, nontriv, dt in results:
                self.transitions += 1
                self.runs += runs
                if skip:
                    self.skips[skip] = self.skips.get(skip, 0) + 1
                elif nontriv:
                    self.nontrivial += 1
                new = True
                if key is not None:
                    ks = json.dumps(key, sort_keys=True)
                    new = ks not in self.states
                    if new:
                        self.states[ks] = level
                        new_states += 1
                if new and not bad and level < max_level:
                    nxt.extend(succ)
            self.levels.append(dict(level=level, cases=len(results), new_states=new_states))
            frontier = nxt
            level += 1
            if stopped:
                break
        self.ex.shutdown(wait=False, cancel_futures=True)
        for p in list(getattr(self.ex, '_processes', None) or {}):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        return self


def write_replay(pid, seed, tier, case, msgs):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    import hashlib

    h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f'replay_{pid}_{h}.json')
    with open(p, 'w') as f:
        json.dump(dict(property=pid, seed=seed, tier=tier, case=case, messages=msgs), f, indent=1)
    return p


def confirm(path):
    """Re-executes a case on the stock XLA backend in a fresh process."""
    import subprocess

    try:
        r = subprocess.run(
            [PY, os.path.join(HERE, 'run.py'), '--replay', path],
            capture_output=True, text=True, timeout=200,
        )
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    return r.returncode == 1, (r.stdout + r.stderr)[-2000:]
