"""Crash points: an exception raised at a chosen executed line of the code under test."""
import ast
import dis
import sys
from .core import WATCH, SimCrash


class Injected(Exception):
    """an ordinary failure raised inside the code under test"""


class InjectedMemory(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


KINDS = [('error', Injected), ('alloc', InjectedMemory), ('interrupt', InjectedInterrupt), ('crash', SimCrash)]


_calls = {}


def lines_with_calls(code):
    """source lines of a code object at which a call (or an import / iteration step) is made: the points at which an
    operation can fail by itself, or be interrupted while it waits"""
    s = _calls.get(code)
    if s is None:
        s = set()
        line = None
        for ins in dis.get_instructions(code):
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            if ins.opname.startswith('CALL') and not ins.opname.startswith('CALL_INTRINSIC') \
                    or ins.opname in ('FOR_ITER', 'IMPORT_NAME'):
                s.add(line)
        s = frozenset(s)
        _calls[code] = s
    return s


_cleanup = {}


def cleanup_lines(path):
    """lines of finally blocks and with headers: a second failure inside the cleanup of the first cannot be guarded against in Python"""
    s = _cleanup.get(path)
    if s is None:
        s = set()
        try:
            tree = ast.parse(open(path, 'rb').read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                for b in n.finalbody:
                    s.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(n, ast.With):       # the header line is also where __exit__ gets called
                s.update(range(n.lineno, n.items[-1].context_expr.end_lineno + 1))
        s = _cleanup[path] = frozenset(s)
    return s


def _watched(code):
    return code.co_filename.startswith(WATCH)


def record_lines(fn, limit=2_000_000):
    """run fn() and return (result_or_exc, {site: count}, order of sites)"""
    sites = {}
    n = 0

    def local(frame, event, arg):
        nonlocal n
        if event == 'line':
            n += 1
            if frame.f_lineno not in lines_with_calls(frame.f_code) or frame.f_lineno in cleanup_lines(frame.f_code.co_filename):
                return local
            k = (frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno)
            sites[k] = sites.get(k, 0) + 1
        return local

    def glob(frame, event, arg):
        if _watched(frame.f_code):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        try:
            res = ('ok', fn())
        except BaseException as e:
            res = ('raise', e)
    finally:
        sys.settrace(old)
    return res, sites, n


def crash_at(fn, site, occurrence, exc):
    """run fn(); raise `exc` just before the occurrence-th execution of site.  Returns (outcome, fired)."""
    state = dict(c=0, fired=False)

    def local(frame, event, arg):
        if event == 'line' and not state['fired'] and frame.f_lineno == site[2] \
                and frame.f_code.co_name == site[1] and frame.f_code.co_filename == site[0]:
            state['c'] += 1
            if state['c'] > occurrence:
                state['fired'] = True
                raise exc
        return local

    def glob(frame, event, arg):
        if state['fired']:
            return None
        c = frame.f_code
        if c.co_filename == site[0]:
            return local
        return None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        try:
            res = ('ok', fn())
        except BaseException as e:
            res = ('raise', e)
    finally:
        sys.settrace(old)
    return res, state['fired']


def choose_crash(sim, sites, within=None):
    """choose a crash point: first a distinct source line (uniform), then which execution of it"""
    keys = list(sites)          # order of first execution: deterministic
    if not keys:
        return None
    site = keys[sim.choose(len(keys), 'crash-site')]
    occ = sim.choose(sites[site], 'crash-occurrence')
    kind, cls = KINDS[sim.choose(len(KINDS), 'crash-kind')]
    return site, occ, kind, cls('injected')


class _TooLong(BaseException):
    pass


def limited(fn, lines):
    """run fn; (result, False), or (None, True) when it executes more than `lines` source lines of the code under test"""
    left = [lines]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise _TooLong()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(WATCH) else None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        return fn(), False
    except _TooLong:
        return None, True
    finally:
        sys.settrace(old)
