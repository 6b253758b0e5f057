"""Simulated joblib backends: the workers, their order, batching, interleaving and failures are seeded choices.

`prefer='threads'` / require='sharedmem' -> shared-memory workers (one process, one global RNG);
default (loky / multiprocessing)         -> process workers: tasks and results cross a pickle boundary and the
                                            worker has its own global RNG state.
Only the backend is simulated; joblib.Parallel itself (dispatch, batching, ordering, aborting) is the real code.
"""
import random as _pyrandom
import sys
import time as _time

import numpy as np
import joblib.parallel as jp
from joblib._parallel_backends import ParallelBackendBase
import cloudpickle
import pickle

from . import sched as S

_cfg = None      # active JobSim


class WorkerDied(RuntimeError):
    """what loky reports when a worker process is killed"""


class JobSim:
    """Configuration of the simulated workers for one run (context manager)."""

    def __init__(self, sim, mode='order', fail_pct=0, opcodes=False, perturb_rng=True):
        self.sim, self.mode, self.fail_pct, self.opcodes, self.perturb = sim, mode, fail_pct, opcodes, perturb_rng
        self.failed = 0

    def __enter__(self):
        global _cfg
        self.prev, _cfg = _cfg, self
        return self

    def __exit__(self, *a):
        global _cfg
        _cfg = self.prev


class Future:
    __slots__ = ('func', 'callback', 'done', 'res', 'exc', 'started')

    def __init__(self, func, callback):
        self.func, self.callback = func, callback
        self.done = self.started = False
        self.res = self.exc = None


def rng_state():
    st = [np.random.get_state(), _pyrandom.getstate()]
    if 'torch' in sys.modules:
        st.append(sys.modules['torch'].get_rng_state())
    return st


def set_rng_state(st):
    np.random.set_state(st[0])
    _pyrandom.setstate(st[1])
    if len(st) > 2:
        sys.modules['torch'].set_rng_state(st[2])


def perturb_rng(sim, label='perturb-rng'):
    """put every process-wide generator in another state"""
    s = sim.choose(2 ** 31 - 1, label)
    np.random.seed(s)
    _pyrandom.seed(s + 1)
    if 'torch' in sys.modules:
        sys.modules['torch'].manual_seed(s + 2)
    sim.count('fault:global-rng-perturbed')


class DstBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    process = False
    supports_inner_max_num_threads = True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.pending = []
        self.n = 2

    def __reduce__(self):
        return (type(self), ())

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError('n_jobs == 0 in Parallel has no meaning')
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(8 + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        self.parallel = parallel
        self.n = self.effective_n_jobs(n_jobs)
        self.pending = []
        if _cfg is None:
            self.n = 1          # no simulation active: joblib's own sequential path
        return self.n

    def compute_batch_size(self):
        return 1 + (_cfg.sim.choose(4, 'batch-size') if _cfg else 0)

    def submit(self, func, callback=None):
        f = Future(func, callback)
        self.pending.append(f)
        return f

    def retrieve_result_callback(self, out):
        if out.exc is not None:
            raise out.exc
        return out.res

    def abort_everything(self, ensure_ready=True):
        self.pending = []
        if _cfg:
            _cfg.sim.count('fault:parallel-aborted')
        if ensure_ready:
            self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)

    def get_nested_backend(self):
        lvl = (getattr(self, 'nesting_level', 0) or 0) + 1
        if lvl > 1:
            from joblib._parallel_backends import SequentialBackend
            return SequentialBackend(nesting_level=lvl), None
        return ThreadsBackend(nesting_level=lvl), None

    # -- the event loop: called whenever joblib waits
    def _exec(self, f):
        cfg = _cfg
        sim = cfg.sim
        if cfg.fail_pct and sim.flip(cfg.fail_pct, 'worker-fails'):
            cfg.failed += 1
            k = sim.choose(3, 'worker-failure')
            sim.fault(['worker-error', 'worker-alloc', 'worker-killed'][k])
            raise [ValueError('injected worker error'), MemoryError('injected'), WorkerDied('injected')][k]
        if self.process:
            saved = rng_state()
            try:
                func = pickle.loads(cloudpickle.dumps(f.func))
                perturb_rng(sim, 'worker-rng')
                return pickle.loads(cloudpickle.dumps(func()))
            finally:
                set_rng_state(saved)
        if cfg.perturb and cfg.mode == 'order' and sim.flip(25, 'rng-between-tasks'):
            perturb_rng(sim)
        return f.func()

    def _finish(self, f):
        f.done = True
        if f.callback is not None:
            f.callback(f)

    def pump(self):
        cfg = _cfg
        sim = cfg.sim
        if not self.pending:
            raise RuntimeError('joblib waits but no task is pending')
        window = self.pending[:max(1, self.n)]
        if cfg.mode == 'interleave' and S._current is None and not self.process and len(window) > 1:
            for f in window:
                self.pending.remove(f)
            s = S.Sched(sim, opcodes=cfg.opcodes)
            byt = {}
            for f in window:
                byt[s.spawn(lambda f=f: self._exec(f)).idx] = f

            def done(t):
                f = byt[t.idx]
                f.res, f.exc = t.result, t.exc
                sim.note('task-done', t.idx)
                self._finish(f)
                # a free worker takes the next pending task at once
                if self.pending:
                    g = self.pending.pop(0)
                    byt[s.spawn(lambda g=g: self._exec(g)).idx] = g
            s.on_done = done
            sim.count('sched:parallel-section')
            s.run()
            return
        i = sim.choose(len(window), 'complete-next')
        f = window[i]
        self.pending.remove(f)
        sim.mark('task', i)
        try:
            f.res = self._exec(f)
        except BaseException as e:
            f.exc = e
        sim.count('sched:task')
        self._finish(f)


class ThreadsBackend(DstBackend):
    supports_sharedmem = True
    uses_threads = True


class ProcessBackend(DstBackend):
    process = True
    supports_sharedmem = False
    uses_threads = False


class _Time:
    """joblib's clock and its waiting: waiting means 'let the simulated workers make progress'."""

    def __getattr__(self, k):
        return getattr(_time, k)

    def time(self):
        return _cfg.sim.clock if _cfg else _time.time()

    def sleep(self, s):
        if _cfg is None:
            return _time.sleep(s)
        _cfg.sim.clock += s
        f = sys._getframe(1)
        par = f.f_locals.get('self')
        if isinstance(par, jp.Parallel) and isinstance(par._backend, DstBackend):
            par._backend.pump()


def install():
    jp.BACKENDS['threading'] = ThreadsBackend
    jp.BACKENDS['loky'] = ProcessBackend
    jp.BACKENDS['multiprocessing'] = ProcessBackend
    jp.time = _Time()
