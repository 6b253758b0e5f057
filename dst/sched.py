"""Seeded thread scheduler.  Real threads, exactly one runs at a time; hand-over happens only at traced
lines (or opcodes) of the code under test, at simulated locks and at thread end, and the scheduler decides."""
import sys
import threading
import _thread

from .core import WATCH, Violation

_real_lock = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock
QUANTA = [10 ** 9, 1, 1, 2, 3, 5, 8, 13, 25, 60, 150, 500, 2000]

_current = None          # active Sched


class Deadlock(Exception):
    pass


class Stall(Exception):
    pass


class _Baton:
    """binary hand-off on a raw lock"""

    def __init__(self):
        self.l = _real_lock()
        self.l.acquire()

    def wait(self, timeout=-1):
        return self.l.acquire(True, timeout)

    def give(self):
        self.l.release()


class SimThread:
    def __init__(self, sched, idx, fn, name):
        self.sched, self.idx, self.fn, self.name = sched, idx, fn, name
        self.baton = _Baton()
        self.done = False
        self.result = None
        self.exc = None
        self.blocked_on = None
        self.left = 0
        self.killed = False
        self.th = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.baton.wait()
        s = self.sched
        s.by_ident[_thread.get_ident()] = self
        try:
            if not self.killed:
                sys.settrace(self._trace)
                try:
                    self.result = self.fn()
                finally:
                    sys.settrace(None)
        except BaseException as e:
            self.exc = e
        self.done = True
        s.ctrl.give()

    # -- tracing
    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(WATCH):
            if self.sched.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self._local_op
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self._tick(frame)
        return self._local

    def _local_op(self, frame, event, arg):
        if event == 'opcode':
            self._tick(frame)
        return self._local_op

    def _tick(self, frame):
        s = self.sched
        s.sim.steps += 1
        self.left -= 1
        if self.left <= 0:
            s.sim.mark(self.idx, frame.f_code.co_name, frame.f_lineno)
            self.park()

    def park(self):
        self.sched.ctrl.give()
        self.baton.wait()
        if self.killed:
            raise SystemExit


class Sched:
    def __init__(self, sim, opcodes=False, stall_s=60.0, max_switches=3000):
        self.sim = sim
        self.opcodes = opcodes
        self.threads = []
        self.ctrl = _Baton()
        self.by_ident = {}
        self.stall_s = stall_s
        self.max_switches = max_switches
        self.switches = 0
        self.on_done = None

    def spawn(self, fn, name=''):
        t = SimThread(self, len(self.threads), fn, name or f't{len(self.threads)}')
        self.threads.append(t)
        t.th.start()
        return t

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def step(self):
        """let one runnable thread run for a seeded quantum; False when none is left"""
        alive = [t for t in self.threads if not t.done]
        if not alive:
            return False
        ready = [t for t in alive if t.blocked_on is None or not t.blocked_on.locked_by_other(t)]
        if not ready:
            raise Deadlock('all threads blocked: ' + ', '.join(f'{t.name} on lock held by '
                                                             f'{getattr(t.blocked_on.owner, "name", "?")}' for t in alive))
        t = ready[self.sim.choose(len(ready), 'run')]
        if len(ready) > 1 and self.switches < self.max_switches:
            t.left = QUANTA[self.sim.choose(len(QUANTA), 'quantum')]
        else:
            t.left = 10 ** 9 if len(ready) == 1 else 500
        if len(ready) > 1:
            self.switches += 1
            self.sim.count('sched:handover')
        t.blocked_on = None
        t.baton.give()
        if not self.ctrl.wait(self.stall_s):
            raise Stall(f'thread {t.name} did not come back (blocked outside the simulator)')
        if t.done and self.on_done:
            self.on_done(t)
        return True

    def run(self):
        global _current
        prev, _current = _current, self
        try:
            while self.step():
                pass
        finally:
            _current = prev
            self.kill()
        return self.threads

    def kill(self):
        for t in self.threads:
            if not t.done:
                t.killed = True


def _sim_thread():
    s = _current
    return None if s is None else s.me()


class SimLock:
    """Lock created by the code under test: blocks cooperatively under simulation."""
    reentrant = False

    def __init__(self):
        self._real = _real_RLock() if self.reentrant else _real_Lock()
        self.owner = None
        self.depth = 0

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()
        self.owner, self.depth = None, 0

    def locked_by_other(self, t):
        if self.owner is None:
            return False
        return not (self.reentrant and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        t = _sim_thread()
        if t is None:
            return self._real.acquire(blocking, timeout) if timeout != -1 else self._real.acquire(blocking)
        if self.locked_by_other(t):
            if not blocking or timeout == 0:
                return False
            while self.locked_by_other(t):
                t.blocked_on = self
                t.sched.sim.count('sched:lock-wait')
                t.park()
        self.owner = t
        self.depth += 1
        t.left -= 1
        if t.left <= 0:
            t.park()
        return True

    def release(self):
        t = _sim_thread()
        if t is None and self.owner is None:
            return self._real.release()
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.depth = 0
            self.owner = None

    def locked(self):
        return self.owner is not None or (hasattr(self._real, 'locked') and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    # Condition support
    def _is_owned(self):
        t = _sim_thread()
        if t is None:
            if self.reentrant:
                return self._real._is_owned()
            if self._real.acquire(False):
                self._real.release()
                return False
            return True
        return self.owner is t

    def _release_save(self):
        d = self.depth
        self.depth = 0
        self.owner = None
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


class SimRLock(SimLock):
    reentrant = True


def _from_watched():
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(WATCH):
            return True
        if not fn.endswith(('threading.py', 'logging/__init__.py')):
            return False
        f = f.f_back
    return False


def _lock_factory():
    return SimLock() if _from_watched() else _real_Lock()


def _rlock_factory(*a):
    return SimRLock() if _from_watched() else _real_RLock()


def install():
    """must run before ylearn is imported, so module-level locks of the code under test are simulated too"""
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory


def run_threads(sim, fns, opcodes=False):
    """run callables concurrently under the seeded scheduler; returns list of (value, exc)"""
    s = Sched(sim, opcodes=opcodes)
    ts = [s.spawn(f) for f in fns]
    s.run()
    return [(t.result, t.exc) for t in ts]
