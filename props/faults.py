"""Ways a fit can be made to fail; each is one seeded choice and fires at a seeded point."""
import copy

import numpy as np
import pandas as pd

from dst import simjoblib
from dst.core import SimCrash, attempt
from dst.tracer import choose_crash, crash_at, record_lines
from . import worlds as W

EXCS = [('nuisance-model-error', lambda: W.NuisanceFailed('injected')), ('nuisance-alloc', lambda: MemoryError('injected')),
        ('nuisance-interrupt', lambda: KeyboardInterrupt('injected'))]


def noarg(spec, obj):
    return lambda: (spec.call(obj), None)[1]


def bad_data(sim, spec):
    """the same call with damaged arguments (on copies)"""
    kw = dict(spec.kwargs)
    key = 'data' if 'data' in kw else 'df_lift'
    df = kw[key].copy()
    k = sim.choose(5, 'bad-data')
    num = [c for c in df.columns if df[c].dtype.kind in 'fi']
    if k == 0 and num:
        c = num[sim.choose(len(num), 'bad-col')]
        df[c] = df[c].astype(float)
        df.iloc[sim.choose(len(df), 'bad-row'), df.columns.get_loc(c)] = np.nan
        what = 'nan-cell'
    elif k == 1:
        c = list(df.columns)[sim.choose(df.shape[1], 'bad-col')]
        df = df.drop(columns=[c])
        what = 'missing-column'
    elif k == 2 and num:
        c = num[sim.choose(len(num), 'bad-col')]
        df[c] = df[c].astype(object)
        df.iloc[sim.choose(len(df), 'bad-row'), df.columns.get_loc(c)] = 'oops'
        what = 'text-cell'
    elif k == 3 and num:
        c = num[sim.choose(len(num), 'bad-col')]
        df[c] = df[c].astype(float)
        df.iloc[sim.choose(len(df), 'bad-row'), df.columns.get_loc(c)] = np.inf
        what = 'inf-cell'
    else:
        df = df.iloc[:sim.choose(3, 'rows-left')]
        what = 'truncated'
    kw[key] = df
    sp = copy.copy(spec)
    sp.kwargs = kw
    return sp, what


def faulted_call(sim, kind, call, fresh_call, jobsim=None):
    """run call() with one seeded fault.  fresh_call() is the same operation on a throw-away object, used to learn
    which lines / model calls the operation executes.  Returns (Out, fired, description)."""
    how = sim.weighted([4, 5, 2 if jobsim is not None else 0], 'fault-kind') if kind.flaky else \
        1 + sim.weighted([5, 2 if jobsim is not None else 0], 'fault-kind')
    if how == 0:
        W.PLAN.disarm()
        c0 = W.PLAN.calls
        attempt(fresh_call)
        n = W.PLAN.calls - c0
        if n:
            nm, mk = EXCS[sim.weighted([4, 1, 1], 'model-failure')]
            W.PLAN.arm(sim.choose(n, 'fail-at-call'), mk())
            o = attempt(call)
            fired = W.PLAN.fired
            W.PLAN.disarm()
            W.PLAN.fired = 0
            if fired:
                sim.fault(nm)
            return o, bool(fired), nm
        how = 1
    if how == 1:
        _, sites, _ = record_lines(lambda: attempt(fresh_call))
        cp = choose_crash(sim, sites)
        if cp is None:
            return attempt(call), False, 'none'
        site, occ, nm, exc = cp
        res = {}

        def go():
            res['o'] = attempt(call)
        _, fired = crash_at(go, site, occ, exc)
        if fired:
            sim.fault('line-' + nm)
        loc = f"{nm} before {site[0].split('/ylearn/')[-1]}:{site[1]} occurrence {occ}"
        sim.mark('crash', site[0][-20:], site[1], site[2] if False else '', occ > 0)
        return res['o'], fired, loc
    jobsim.fail_pct = 50
    f0 = jobsim.failed
    o = attempt(call)
    jobsim.fail_pct = 0
    return o, jobsim.failed > f0, 'worker'
