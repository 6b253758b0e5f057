"""C12: timing and logging helpers are exact and transparent under threads."""
import collections
import io
import logging as L
import re
import sys
import time as _time

import ylearn.utils._tic_tok  # noqa: loaded once, before the runs fork
import ylearn.utils.logging  # noqa

from dst import sched
from dst.core import Violation, WATCH
from dst.tracer import choose_crash, crash_at, record_lines

RULE = ('One run: 1-3 threads switching at single byte codes call timed functions (returning, raising, nested, oddly argued) under a '
        'simulated clock, with failing log output and concurrent reports; or create loggers while other code uses the standard registry; or the level is moved between messages.')
REAL = ['ylearn.utils tic_toc, tit, report, logging.get_logger and its loggers', 'Python logging']
STUB = ['clock (time.time, perf_counter, monotonic as read by ylearn)', 'thread scheduling (byte-code level)', 'locks of ylearn and logging',
        'log output streams (in memory, failing on demand)']
ASSUMPTIONS = ['hand-over inside the Python logging module itself is not simulated, except where it calls back into ylearn']
QUICK_S = 40
CLOCKS = ('time', 'perf_counter', 'monotonic', 'process_time')


class Clock:
    """simulated clock; what ylearn reads is recorded per thread"""

    def __init__(self, sim):
        self.sim, self.now = sim, 1000.0
        self.reads = collections.defaultdict(list)
        self.real = {n: getattr(_time, n) for n in CLOCKS}

    def advance(self, d):
        self.now += d
        self.sim.clock = getattr(self.sim, 'clock', 0)

    def fake(self, name):
        real = self.real[name]

        def read():
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(WATCH):
                s = sched._sim_thread()
                self.reads[s.idx if s else -1].append(self.now)
                return self.now
            return real()
        read.__name__ = name
        return read

    def __enter__(self):
        self.undo = []
        for n, real in self.real.items():
            f = self.fake(n)
            setattr(_time, n, f)
            for mn, m in list(sys.modules.items()):
                if mn.startswith('ylearn.utils') and m is not None:
                    for k, v in list(vars(m).items()):
                        if v is real:
                            setattr(m, k, f)
                            self.undo.append((m, k, real))
        return self

    def __exit__(self, *a):
        for n, real in self.real.items():
            setattr(_time, n, real)
        for m, k, real in self.undo:
            setattr(m, k, real)


class Stream(io.StringIO):
    def __init__(self):
        super().__init__()
        self.bad = False

    def write(self, s):
        if self.bad:
            raise OSError(28, 'No space left on device')
        return super().write(s)


class Env:
    """simulated logging locks, captured streams, chosen log level"""

    def __init__(self, level):
        self.level = level

    def __enter__(self):
        from ylearn.utils import logging as yl
        self.yl = yl
        self.old = L._lock, sys.stdout, sys.stderr, yl.get_level(), L.raiseExceptions, L.getLoggerClass()
        L._lock = sched.SimRLock()
        sys.stdout, sys.stderr = Stream(), Stream()
        L.raiseExceptions = False
        yl.set_level(self.level)
        return self

    def fail_output(self):
        sys.stdout.bad = sys.stderr.bad = True

    def text(self):
        return sys.stdout.getvalue() + sys.stderr.getvalue()

    def __exit__(self, *a):
        lock, out, err, lev, rx, cls = self.old
        L._lock = lock
        sys.stdout, sys.stderr = out, err
        L.raiseExceptions = rx
        self.yl.set_level(lev)
        L.setLoggerClass(cls)


class Boom(Exception):
    pass


class OddDict(dict):
    def __init__(self, need):
        super().__init__(need)


class NoLen:
    def __len__(self):
        raise RuntimeError('no length')

    def __iter__(self):
        raise RuntimeError('no iteration')


def _functions(sim, clock, book):
    """wrapped functions; book[key] collects the expected (calls, elapsed)"""
    from ylearn.utils import tic_toc, tit
    fns = {}

    def body(name, inner=None):
        def fn(a=0, b=None, *rest, **kw):
            clock.advance(kw.pop('d', 0))
            if inner is not None:
                inner(d=1 / 256)
            clock.advance(kw.pop('e', 0))
            if kw.pop('boom', False):
                raise Boom(name)
            if hasattr(b, '__next__'):
                return b
            return name, a, b, rest
        fn.__qualname__ = fn.__name__ = name
        return fn
    for i in range(sim.between(1, 3, 'functions')):
        name = f'fn{i}'
        inner = None
        if i and sim.flip(30, 'nested'):
            inner = fns['fn0'][1]
        raw = body(name, inner)
        how = sim.choose(4, 'wrap')
        given = None
        if how == 0:
            w = tic_toc()(raw)
        elif how == 1:
            w = tit(raw)
        elif how == 2:
            given = f'my-{name}'
            w = tic_toc('warn', given)(raw)
        else:
            given = f'g{i}'
            w = tit(raw, name=given, details=True)
        fns[name] = raw, w, given or f'{__name__}.{name}', inner is not None
    return fns


def _report():
    from ylearn.utils import _tic_tok as m
    return m.report()


def counters(sim):
    clock = Clock(sim)
    with Env(sim.pick(['info', 'debug'], 'level')) as env, clock:
        fns = _functions(sim, clock, None)
        base = {k: v[:2] for k, v in _report().items()}
        nt = sim.between(1, 3, 'threads')
        exp = collections.defaultdict(lambda: [0, 0.0])
        started = collections.Counter()
        ended = collections.Counter()
        plan = []
        for t in range(nt):
            calls = []
            for _ in range(sim.between(1, 5, 'calls')):
                f = sim.pick(sorted(fns), 'fn')
                kind = sim.weighted([5, 3, 1, 1, 1, 1], 'call-kind')
                d = sim.choose(9, 'clock-step') / 64
                e = sim.pick([0, 1 / 32, 3600, -7200, -1 / 64], 'clock-jump')
                calls.append((f, kind, d, e))
                if abs(e) > 1:
                    sim.fault('clock-jump')
            plan.append(calls)
        sim.note('plan', plan, {k: v[2:] for k, v in fns.items()})
        reporter = sim.flip(40, 'reporter')
        if sim.flip(25, 'output-fails'):
            env.fail_output()
            sim.fault('log-output-error')
        problems = []

        def call(tid, f, kind, d, e):
            raw, w, key, nested = fns[f]
            kw = dict(d=d, e=e)
            args = ()
            if kind == 1:
                kw['boom'] = True
            elif kind == 2:
                args = (1, iter([1, 2, 3]))
            elif kind == 3:
                args = (OddDict({'k': 1}), NoLen())
            elif kind == 4:
                args = ([1, [2]], {'a': (1, 2)}, 5)
            elif kind == 5:
                kw['a'] = 1
                args = (2,)                 # a given twice: TypeError in both
            for k in [key] + ([fns['fn0'][2]] if nested and kind != 5 else []):
                started[k] += 1
            n0 = len(clock.reads[tid])
            now0 = clock.now
            try:
                r = w(*args, **dict(kw))
                out = ('ok', r)
            except Boom as ex:
                out = ('boom', str(ex))
            except TypeError as ex:
                out = ('type', str(ex).split('()')[-1])
            except BaseException as ex:
                out = ('other', repr(ex))
            if kind == 1:
                want = ('boom', f)
            elif kind == 5:
                want = ('type', " got multiple values for argument 'a'")
            elif kind == 2:
                want = ('ok', args[1])
            else:
                want = ('ok', (f, args[0] if args else 0, args[1] if len(args) > 1 else None, tuple(args[2:])))
            if out[0] != want[0] or (out[1] is not want[1] and out[1] != want[1]):
                problems.append(('not-transparent', f'kind{kind}', f'{f} call {kind}: wrapped gave {out}, bare gives {want}'))
            if kind == 2 and list(args[1]) != [1, 2, 3]:
                problems.append(('argument-consumed', 'iterator', f'{f}: the iterator passed as argument was advanced by the wrapper'))
            rs = clock.reads[tid][n0:]
            if len(rs) >= 2:
                if nested and kind != 5:
                    exp[fns['fn0'][2]][0] += 1
                    exp[fns['fn0'][2]][1] += rs[2] - rs[1] if len(rs) == 4 else float('nan')
                exp[key][0] += 1
                exp[key][1] += rs[-1] - rs[0]
            else:
                exp[key][0] += 1
                exp[key][1] = float('nan')
            for k in [key] + ([fns['fn0'][2]] if nested and kind != 5 else []):
                ended[k] += 1

        def worker(t):
            def go():
                for c in plan[t]:
                    call(t, *c)
            return go

        def reporting():
            for _ in range(2):
                lo = dict(ended)
                try:
                    r = _report()
                except Exception as ex:
                    problems.append(('report-fails', type(ex).__name__, f'report while calls run: {ex!r}'))
                    return
                hi = dict(started)
                for k in hi:
                    n = r.get(k, (0, 0))[0] - base.get(k, (0, 0))[0]
                    if not lo.get(k, 0) <= n <= hi[k]:
                        problems.append(('report-count', 'running', f'{k}: {n} calls reported, {lo.get(k, 0)} ended before, {hi[k]} started'))
        jobs = [worker(t) for t in range(nt)] + ([reporting] if reporter else [])
        for (_, exc) in sched.run_threads(sim, jobs, opcodes=True):
            if exc is not None:
                raise exc
        for p in problems:
            raise Violation(*p)
        rep = _report()
        for k, (n, s) in sorted(exp.items()):
            got = rep.get(k)
            gn, gs = (got[0] - base.get(k, (0, 0))[0], got[1] - base.get(k, (0, 0.0))[1]) if got else (0, 0.0)
            sim.note('count', k, n, s, gn, gs)
            if gn != n:
                raise Violation('lost-calls', 'count', f'{k}: {n} calls made by {nt} threads, report shows {gn}; report {rep}')
            if s == s and abs(gs - s) > 1e-6:
                raise Violation('elapsed', 'total', f'{k}: calls took {s} on the simulated clock, report shows {gs}')
            if got and abs(got[2] * got[0] - got[1]) > 1e-6:
                raise Violation('elapsed', 'average', f'{k}: average {got[2]} of {got[:2]}')
        extra = {k for k in rep if k not in base and k not in exp}
        if extra:
            raise Violation('lost-calls', 'names', f'report has rows {sorted(extra)} for functions named {sorted(exp)}')
        from ylearn.utils import tit_report
        df = tit_report()
        if len(df) != len(rep) or int(df['count'].sum()) != sum(v[0] for v in rep.values()):
            raise Violation('lost-calls', 'frame', f'report_as_dataframe shows\n{df}\nreport shows {rep}')


class Mine(L.Logger):
    pass


def loggers(sim):
    """get_logger in threads, beside other users of the logging registry"""
    level = sim.pick(['info', 'warn', 'error'], 'level')
    with Env(level) as env:
        yl = env.yl
        nt = sim.between(2, 3, 'threads')
        tag = f'dst{sim.choose(1000, "tag")}'
        plan = []
        for t in range(nt):
            ops = []
            for j in range(sim.between(1, 4, 'ops')):
                op = sim.weighted([6, 3, 2, 1], 'op')
                nm = f'{tag}.shared{sim.choose(2, "name")}' if sim.flip(40, 'shared') else f'{tag}.t{t}.{j}'
                ops.append((op, nm))
            plan.append(ops)
        sim.note('plan', plan)
        ours, others, problems = {}, {}, []
        cls0 = L.getLoggerClass()
        state = dict(cls=cls0)

        def worker(t):
            def go():
                for op, nm in plan[t]:
                    if op == 0:
                        lg = yl.get_logger(nm)
                        if type(lg) is not yl.CustomizedLogger:
                            problems.append(('logger-type', 'ours', f'get_logger({nm!r}) gave {type(lg).__name__}'))
                            continue
                        if ours.setdefault(nm, lg) is not lg:
                            problems.append(('logger-identity', 'ours', f'two loggers named {nm}'))
                        if lg.getEffectiveLevel() != yl.get_level():
                            problems.append(('logger-level', 'ours', f'{nm}: {lg.getEffectiveLevel()} instead of {yl.get_level()}'))
                    elif op == 1:
                        nm = nm.replace(tag, tag + '-user')
                        c0 = state['cls']
                        lg = L.getLogger(nm)
                        if others.setdefault(nm, lg) is lg and type(lg) not in (c0, state['cls'], L.Logger, Mine):
                            problems.append(('foreign-logger', 'type', f'logging.getLogger({nm!r}) of other code became {type(lg).__name__}'))
                    elif op == 2:
                        if L.getLoggerClass() is not state['cls']:
                            problems.append(('logger-class', 'seen', f'getLoggerClass() is {L.getLoggerClass().__name__} while ylearn '
                                                                     f'creates a logger, the process set {state["cls"].__name__}'))
                    else:
                        state['cls'] = Mine
                        L.setLoggerClass(Mine)
            return go
        for (_, exc) in sched.run_threads(sim, [worker(t) for t in range(nt)], opcodes=True):
            if exc is not None:
                raise exc
        for p in problems:
            raise Violation(*p)
        if L.getLoggerClass() is not state['cls']:
            raise Violation('logger-class', 'left', f'logger class left as {L.getLoggerClass().__name__}, was {state["cls"].__name__}')
        # failures leave the class alone
        for bad in (sim.pick([5, b'x', 3.5, ('a',), None, ''], 'bad-name'),):
            try:
                yl.get_logger(bad)
            except Exception as ex:
                sim.fault('bad-logger-name')
                sim.mark('bad', type(ex).__name__)
            if L.getLoggerClass() is not state['cls']:
                raise Violation('logger-class', 'after-error', f'get_logger({bad!r}) left the logger class as {L.getLoggerClass().__name__}')
        _, sites, _ = record_lines(lambda: yl.get_logger(tag + '.rec'))
        cp = choose_crash(sim, sites)
        if cp is not None:
            site, occ, nm, exc = cp
            (how, val), fired = crash_at(lambda: yl.get_logger(tag + '.crash'), site, occ, exc)
            if fired:
                sim.fault('line-' + nm)
                if L.getLoggerClass() is not state['cls']:
                    raise Violation('logger-class', 'after-error', f'get_logger failing at line {site[2]} left {L.getLoggerClass().__name__}')
                if type(yl.get_logger(tag + '.crash')) is not yl.CustomizedLogger:
                    raise Violation('logger-type', 'after-error', f'get_logger after a failed attempt gave another type')
        # each message is written exactly once
        for i, (nm, lg) in enumerate(sorted(ours.items())):
            lg.error(f'<{i}> hello')
            if env.text().count(f'<{i}> hello') != 1:
                raise Violation('logger-output', 'count', f'{nm}: one message written {env.text().count(f"<{i}> hello")} times')
            lg.log(yl.get_level() - 1, f'[{i}] low')
            if f'[{i}] low' in env.text():
                raise Violation('logger-output', 'level', f'{nm}: a message below the configured level was written')
        for nm, lg in sorted(ours.items()):
            if yl.get_logger(nm) is not lg or L.getLogger(nm) is not lg:
                raise Violation('logger-identity', 'ours', f'{nm} is not one logger')


def _sites(n):
    """n call sites of the counting helpers, each on its own source line"""
    src = 'def sites(k, lg, helper, *a):\n' + ''.join(f'    if k == {i}:\n        getattr(lg, helper)(*a)\n' for i in range(n))
    _sites.n = getattr(_sites, 'n', 0) + 1
    ns = {}
    exec(compile(src, f'<sites {_sites.n}>', 'exec'), ns)
    return ns['sites'], f'<sites {_sites.n}>'


def levels(sim):
    """messages while the threshold is moved: each is written once, to one stream, iff its level is reached at that moment"""
    names = dict(debug=10, info=20, warn=30, warning=30, error=40, fatal=50)
    with Env('info') as env:
        yl = env.yl
        tag = f'lev{sim.choose(1000, "tag")}'
        lgs = [yl.get_logger(f'{tag}.{i}') for i in range(sim.between(1, 2, 'loggers'))]
        now = 20
        sites, _ = _sites(3)
        seen = collections.Counter()
        out, err = [], []           # what each stream must hold, in order

        def expect(lvl, msg):
            if lvl >= now:
                (err if lvl >= 30 else out).append(msg)
        for step in range(sim.between(4, 14, 'steps')):
            lg = sim.pick(lgs, 'logger')
            op = sim.weighted([3, 5, 2, 2, 3, 1], 'op')
            msg = f'#{step}#'
            if op == 0:
                v = sim.pick(['debug', 'INFO', 'w', 'error', 'fatal', 10, 25, 40], 'level')
                yl.set_level(v)
                now = {'debug': 10, 'INFO': 20, 'w': 30, 'error': 40, 'fatal': 50}.get(v, v)
                if yl.get_level() != now or yl.to_level(v) != now:
                    raise Violation('logger-level', 'set', f'set_level({v!r}): get_level() is {yl.get_level()}')
                if sim.flip(40, 'another'):
                    lgs.append(yl.get_logger(f'{tag}.{len(lgs)}'))
                what = f'set_level({v!r})'
            elif op == 1:
                m = sim.pick(sorted(names), 'method')
                what = f'{m}()'
                inside = m in ('fatal', 'error') and sim.flip(40, 'in-handler')
                try:
                    if inside:
                        try:
                            raise Boom('handled')
                        except Boom:
                            getattr(lg, m)(msg + ' %s', 'x')
                    else:
                        getattr(lg, m)(msg + ' %s', 'x')
                except Exception as ex:
                    raise Violation('logger-raises', m, f'{m}() raised {ex!r}')
                expect(names[m], msg)
            elif op == 2:
                lvl = sim.pick([9, 10, 19, 20, 29, 30, 35, 50], 'at')
                cond = sim.choose(4, 'condition')
                c = [True, False, lambda: True, lambda: False][cond]
                lg.log_if(lvl, msg, c)
                if cond in (0, 2):
                    expect(lvl, msg)
                what = f'log_if({lvl}, {cond})'
            elif op in (3, 4):
                k, n, lvl = sim.choose(3, 'site'), sim.between(1, 3, 'n'), sim.pick([20, 40], 'at')
                h = ['log_every_n', 'log_first_n'][op - 3]
                sites(k, lg, h, lvl, msg, n)
                c = seen[k]
                seen[k] += 1
                if (c % n == 0) if op == 3 else c < n:
                    expect(lvl, msg)
                what = f'{h}({lvl}, n={n}) at site {k}, call {c}'
            else:
                got = [lg.is_debug_enabled(), lg.is_info_enabled(), lg.is_warning_enabled(), lg.is_enabled_for(now), lg.isEnabledFor(now - 1)]
                want = [10 >= now, 20 >= now, 30 >= now, True, False]
                what = 'is_enabled'
                if got != want:
                    raise Violation('logger-level', 'enabled', f'at level {now} enabled answers {got}, expected {want}')
            sim.note(step, what, now)
            sim.mark(op, now)
            for s, exp, nm in ((sys.stdout, out, 'stdout'), (sys.stderr, err, 'stderr')):
                got = re.findall('#[0-9]+#', s.getvalue())
                if got != exp:
                    raise Violation('logger-output', what.split('(')[0], f'after {what} at level {now}: {nm} has {got}, expected {exp}')


SCENARIOS = [('counters', counters, 6), ('loggers', loggers, 4), ('levels', levels, 3)]
