"""Simulation kernel: one seed decides every choice; every run is replayable from its choice list."""
import hashlib
import json
import os
import random
import sys
import traceback
from collections import Counter

import numpy as np

REPO = os.environ.get('DST_REPO', '/repo')
WATCH = os.path.join(os.path.realpath(REPO), 'ylearn') + os.sep


class Violation(Exception):
    """A property was observed to be broken.  `sig` identifies what failed (behavioural, no line numbers)."""

    def __init__(self, kind, sig, detail=''):
        super().__init__(f'{kind}: {sig}: {detail}')
        self.kind, self.sig, self.detail = kind, sig, str(detail)[:4000]


class Skip(Exception):
    """This run explored nothing the property speaks about (counted, never a verdict)."""


class SimCrash(BaseException):
    """The simulated process/thread is interrupted here (like KeyboardInterrupt)."""


class Sim:
    """Source of every choice in a run.  Either generates (seed) or replays (choices)."""

    def __init__(self, seed=None, choices=None, tier='quick'):
        self.seed = seed
        self.tier = tier
        self.rng = random.Random(seed) if choices is None else None
        self.fixed = None if choices is None else list(choices)
        self.pos = 0
        self.choices = []
        self.labels = []
        self.counts = Counter()      # faults / probes / schedule decisions that actually happened
        self.h = hashlib.sha256()
        self.log_lines = []
        self.steps = 0               # traced lines executed under the scheduler (simulated steps)
        self.clock = 0.0             # simulated seconds
        self.shape = hashlib.sha256()

    # ---- choices -------------------------------------------------------------------------
    def choose(self, n, label=''):
        """An integer in [0, n).  0 is always the 'simplest' option (shrinking goes towards it)."""
        n = int(n)
        if n <= 1:
            return 0
        if self.fixed is None:
            v = self.rng.randrange(n)
        else:
            v = self.fixed[self.pos] % n if self.pos < len(self.fixed) else 0
        self.pos += 1
        self.choices.append(v)
        self.labels.append(label)
        return v

    def weighted(self, weights, label=''):
        """index by integer weights; recorded as one choice so replay is stable."""
        tot = sum(weights)
        v = self.choose(tot, label)
        for i, w in enumerate(weights):
            if v < w:
                return i
            v -= w
        return len(weights) - 1

    def pick(self, seq, label=''):
        return seq[self.choose(len(seq), label)]

    def flip(self, pct, label=''):
        """True with pct percent probability; choice value 0 means False."""
        v = self.choose(100, label)
        return v >= 100 - pct

    def between(self, a, b, label=''):
        return a + self.choose(b - a + 1, label)

    def nprng(self, label='data'):
        return np.random.RandomState(self.choose(2 ** 31 - 1, label))

    def shuffled(self, seq, label='order'):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.choose(len(seq), label)))
        return out

    # ---- log -----------------------------------------------------------------------------
    def note(self, *parts):
        line = ' '.join(str(p) for p in parts)
        self.h.update(line.encode() + b'\n')
        if len(self.log_lines) < 400:
            self.log_lines.append(line)

    def count(self, what, k=1):
        self.counts[what] += k

    def fault(self, kind):
        self.counts['fault:' + kind] += 1

    def mark(self, *parts):
        """contributes to the 'distinct interleavings/states' measure"""
        self.shape.update(repr(parts).encode())

    def result(self):
        return dict(choices=self.choices, counts=dict(self.counts), hash=self.h.hexdigest(),
                    shape=self.shape.hexdigest()[:20], steps=self.steps, clock=self.clock,
                    log=self.log_lines)


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(':'.join(map(str, parts)).encode()).digest()[:8], 'big')


def run_scenario(fn, seed=None, choices=None, tier='quick'):
    """Run one simulated execution.  Returns a plain dict (picklable)."""
    sim = Sim(seed=seed, choices=choices, tier=tier)
    out = dict(status='ok')
    try:
        fn(sim)
    except Violation as v:
        out = dict(status='violation', kind=v.kind, sig=v.sig, detail=v.detail)
    except Skip as s:
        out = dict(status='skip', detail=str(s))
    except BaseException as e:  # harness trouble: never a verdict
        out = dict(status='error', detail=''.join(traceback.format_exception(e))[-4000:])
    finally:
        sys.settrace(None)
    r = sim.result()
    r.update(out)
    r['seed'] = seed
    return r


# ---- canonical results and comparison -------------------------------------------------------
def canon(obj, depth=0):
    """Reduce a result to nested tuples of primitive things / numpy arrays for comparison."""
    import pandas as pd
    if depth > 12:
        return '<deep>'
    if obj is None or isinstance(obj, (bool, int, str, bytes)):
        return obj
    if isinstance(obj, (float, np.floating)):
        return float(obj)
    if isinstance(obj, (np.integer, np.bool_)):
        return obj.item()
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ('arr', obj.shape, tuple(canon(x, depth + 1) for x in obj.ravel()))
        return obj.copy()
    if type(obj).__module__.startswith('torch') and hasattr(obj, 'detach'):
        return obj.detach().cpu().numpy().copy()
    if isinstance(obj, pd.DataFrame):
        return ('df', tuple(map(str, obj.columns)), tuple(canon(x) for x in obj.index),
                tuple(canon(np.asarray(obj.iloc[:, i]), depth + 1) for i in range(obj.shape[1])))
    if isinstance(obj, pd.Series):
        return ('series', str(obj.name), tuple(canon(x) for x in obj.index), canon(np.asarray(obj), depth + 1))
    if isinstance(obj, pd.Index):
        return ('index', canon(np.asarray(obj), depth + 1))
    if isinstance(obj, dict):
        return ('dict', tuple((canon(k, depth + 1), canon(v, depth + 1)) for k, v in
                              sorted(obj.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(obj, (set, frozenset)):
        return ('set', tuple(sorted((repr(canon(x)) for x in obj))))
    if isinstance(obj, (list, tuple)):
        return ('seq', tuple(canon(x, depth + 1) for x in obj))
    if hasattr(obj, 'to_dict') and callable(obj.to_dict):
        return ('todict', canon(obj.to_dict(), depth + 1))
    return ('obj', type(obj).__name__)


def same(a, b, rtol=1e-7, atol=1e-9):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            try:
                return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
            except TypeError:
                return False
        return bool(np.array_equal(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a and b != b:
            return True
        if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def brief(x, n=240):
    s = repr(x).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


class Out:
    """Outcome of one operation: value or exception."""
    __slots__ = ('ok', 'val', 'exc')

    def __init__(self, ok, val=None, exc=None):
        self.ok, self.val, self.exc = ok, val, exc

    def __repr__(self):
        return f'ok {brief(self.val)}' if self.ok else f'raised {self.exc}'


def attempt(fn, *a, **k):
    try:
        return Out(True, canon(fn(*a, **k)))
    except Violation:
        raise
    except (Exception, SimCrash, KeyboardInterrupt) as e:
        return Out(False, exc=f'{type(e).__name__}: {str(e)[:200]}')


def outcome_same(a, b, **kw):
    if a.ok != b.ok:
        return False
    return same(a.val, b.val, **kw) if a.ok else True


def fp(x):
    """stable fingerprint of a canonical value (rounded) for the event log"""
    def enc(v):
        if isinstance(v, np.ndarray):
            if v.dtype.kind in 'fc':
                return f'{v.shape}' + ','.join('%.5g' % (0.0 if abs(t) < 1e-9 else t) for t in v.ravel()[:50])
            return f'{v.shape}' + repr(v.ravel()[:50].tolist())
        if isinstance(v, tuple):
            return '(' + ';'.join(enc(t) for t in v) + ')'
        if isinstance(v, float):
            return '%.5g' % v
        return repr(v)
    return hashlib.sha256(enc(x).encode()).hexdigest()[:12]
