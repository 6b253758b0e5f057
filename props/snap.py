"""Deep, value-level snapshots of anything a caller may hand to the library."""
import hashlib
import pickle

import numpy as np
import pandas as pd


def snap(o, memo=None, depth=0):
    memo = {} if memo is None else memo
    if isinstance(o, float):
        return repr(o)
    if o is None or isinstance(o, (bool, int, str, bytes, complex, type)):
        return o
    if isinstance(o, (np.generic,)):
        return ('np', o.dtype.str, o.tobytes())
    if depth > 14:
        return ('deep', type(o).__name__)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('arr', o.shape, tuple(snap(x, memo, depth + 1) for x in o.ravel()))
        return ('arr', o.shape, o.dtype.str, hashlib.sha256(np.ascontiguousarray(o).tobytes()).hexdigest())
    if isinstance(o, pd.DataFrame):
        return ('df', tuple(map(repr, o.columns)), tuple(str(t) for t in o.dtypes), snap(o.index.to_numpy(), memo, depth + 1),
                str(o.index.name), str(o.columns.name), repr(o.attrs),
                tuple(snap(o.iloc[:, i].to_numpy(), memo, depth + 1) for i in range(o.shape[1])))
    if isinstance(o, pd.Series):
        return ('series', str(o.name), snap(o.index.to_numpy(), memo, depth + 1), snap(o.to_numpy(), memo, depth + 1))
    if isinstance(o, pd.Index):
        return ('index', snap(o.to_numpy(), memo, depth + 1))
    if id(o) in memo:                       # only objects that can be part of a cycle; kept alive by the memo
        return ('seen', memo[id(o)][0])
    memo[id(o)] = (len(memo), o)
    if isinstance(o, dict):
        return (type(o).__name__, tuple((snap(k, memo, depth + 1), snap(v, memo, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x, memo, depth + 1) for x in o))
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, tuple(sorted(repr(snap(x, memo, depth + 1)) for x in o)))
    if type(o).__module__.startswith('torch') and hasattr(o, 'detach'):
        return ('tensor', snap(o.detach().cpu().numpy(), memo, depth + 1))
    if callable(o) and not hasattr(o, 'fit') and hasattr(o, '__qualname__'):
        return ('fn', o.__qualname__)
    d = getattr(o, '__dict__', None)
    if d is not None:
        skip = ('_TabularDistribution__rng',)
        return (type(o).__name__, tuple((k, snap(v, memo, depth + 1)) for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))
                                        if k not in skip))
    try:
        return ('obj', type(o).__name__, hashlib.sha256(pickle.dumps(o)).hexdigest())
    except Exception:
        return ('obj', type(o).__name__)


def where(a, b, path=''):
    """first place where two snapshots differ"""
    if type(a) is not type(b):
        return f'{path}: {str(a)[:80]} -> {str(b)[:80]}'
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f'{path}: {str(a)[:200]} -> {str(b)[:200]}'
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y and not (x != x and y != y):
                nm = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
                return where(x, y, f'{path}/{nm}')
        return path
    return f'{path}: {str(a)[:120]} -> {str(b)[:120]}'
