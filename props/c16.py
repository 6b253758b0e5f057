"""C16: a warm-started forest grown in steps equals one grown at once."""
import pickle

import numpy as np

from dst.core import Skip, Violation, attempt, fp, outcome_same
from dst.simjoblib import JobSim, perturb_rng
from dst.tracer import choose_crash, crash_at, record_lines
from . import forests as F
from . import worlds as W

RULE = ('One run: one warm-started forest with seeded settings, grown through a seeded increasing sequence of sizes under seeded worker '
        'schedules, with growth steps that fail (worker failure, injected exception at an executed line, refused size) and are retried; '
        'compared after every step with one direct fit of that size.')
REAL = ['GRForest, CausalForest, GrfTree and its compiled parts', 'joblib.Parallel dispatch and ordering']
STUB = ['joblib worker back ends (simulated workers)']
ASSUMPTIONS = ['all steps are given the same data']
TOL = dict(rtol=1e-6, atol=1e-8)


def leaves(obj, v):
    return [np.asarray(t.apply(None, v)) for t in F.forest_of(obj).estimators_]


def grow(sim):
    kind = (F.GRF if sim.flip(60, 'grf') else F.CF)(sim)
    kind.opts['warm_start'] = True
    name = kind.name
    sim.note('kind', name, kind.cfg)
    sim.mark(name)
    w = kind.world(sim, tag='0')
    sp = kind.spec(sim, w)
    qs = F.probes(w)
    tv = w.df[w.v].values.astype(np.float32)
    k = sim.between(2, 4, 'steps')
    sizes = sorted({sim.between(1, 9, 'size') for _ in range(k)})
    if sim.flip(25, 'repeat-size'):
        i = sim.choose(len(sizes), 'which')
        sizes.insert(i, sizes[i])
    n_jobs = kind.opts['n_jobs']

    def new(n, warm=True):
        kind.opts['n_estimators'] = n
        kind.opts['warm_start'] = warm
        return kind.make()

    direct = {}

    def want(n):
        if n not in direct:
            kind.opts['n_jobs'] = None
            m = new(n, warm=sim.flip(50, 'reference-warm'))
            kind.opts['n_jobs'] = n_jobs
            o = attempt(lambda: (sp.call(m), None)[1])
            direct[n] = ([q(m) for q in qs], leaves(m, tv)) if o.ok else None
        return direct[n]
    if want(sizes[0]) is None:
        raise Skip('fit rejected')
    obj = new(sizes[0])
    have = 0               # trees of the last completed step
    old = None
    for si, n in enumerate(sizes):
        F.forest_of(obj).n_estimators = n
        F.forest_of(obj).n_jobs = F.N_JOBS[sim.choose(len(F.N_JOBS), 'n_jobs')]
        if sim.flip(40, 'perturb'):
            perturb_rng(sim)
        call = lambda: (sp.call(obj), None)[1]
        f = sim.weighted([5, 3, 3, 1], 'fault')
        faulted = False
        if f == 1:
            with F.schedule(sim, fail_pct=40) as js:
                o = attempt(call)
                faulted = js.failed > 0
            sim.note('step', n, 'worker failures', js.failed, o.ok)
            if faulted and o.ok:
                raise Violation('failure-hidden', name, f'{js.failed} worker(s) failed in the step to {n} trees, fit returned normally')
        elif f == 2:
            twin = pickle.loads(pickle.dumps(obj))
            _, sites, _ = record_lines(lambda: attempt(lambda: sp.call(twin)))
            cp = choose_crash(sim, sites)
            if cp is not None:
                site, occ, nm, exc = cp
                res = {}

                def go():
                    res['o'] = attempt(call)
                _, fired = crash_at(go, site, occ, exc)
                o = res['o']
                faulted = fired
                sim.note('step', n, 'crash', nm, site[1], occ, o.ok)
                sim.mark('crash', site[1], occ > 0)
                if fired:
                    sim.fault('line-' + nm)
        elif f == 3 and have > 1:
            F.forest_of(obj).n_estimators = sim.between(1, have - 1, 'smaller')
            o = attempt(call)
            if o.ok:
                raise Violation('shrinks', name, f'n_estimators={F.forest_of(obj).n_estimators} accepted by a forest of {have} trees')
            faulted = True
            sim.fault('refused-size')
            F.forest_of(obj).n_estimators = n
        if faulted and not (f == 2 and o.ok):
            # as before the step, or refusing; with the injected exception possibly swallowed the step may also be complete
            cands = [want(n)[0]] if True else []
            if have:
                cands.append(want(have)[0])
            for i in sim.shuffled(range(len(qs)))[:2]:
                got = qs[i](obj)
                sim.count('queries-after-failed-step')
                if got.ok and not any(outcome_same(c[i], got, **TOL) for c in cands):
                    raise Violation('failed-step-visible', f'{name}.{qs[i].op}', f'step {have} -> {n} failed ({o}); then {qs[i].name}: {got}; '
                                                                                f'before the step {want(have)[0][i] if have else "unfitted"}')
            sim.count('retries')
        # the (re)tried step, undisturbed
        with F.schedule(sim) as js:
            o = attempt(call)
        sim.note('step', n, js.mode, o.ok, o.exc)
        sim.mark('step', n, js.mode)
        if not o.ok:
            raise Violation('step-fails', name, f'growing {have} -> {n} trees (sizes {sizes}): {o}; a direct fit completes')
        ref, rl = want(n)
        ls = leaves(obj, tv)
        if len(ls) != n:
            raise Violation('tree-count', name, f'{len(ls)} trees after growing to {n} through {sizes[:si + 1]}')
        for i, (a, b) in enumerate(zip(ls, rl)):
            if not np.array_equal(a, b):
                raise Violation('tree-differs', name, f'tree {i} of {n} grown through {sizes[:si + 1]} differs from the directly fitted one')
        if old is not None:
            for i, a in enumerate(old):
                if not np.array_equal(a, ls[i]):
                    raise Violation('earlier-tree-changed', name, f'tree {i} changed while growing {have} -> {n}')
        old = ls
        for i in sim.shuffled(range(len(qs)))[:4]:
            with F.schedule(sim) as js:
                got = qs[i](obj)
            sim.note(qs[i].name, got.ok, fp(got.val) if got.ok else got.exc)
            sim.count('answers-compared')
            if not outcome_same(ref[i], got, **TOL):
                raise Violation('answer-differs', f'{name}.{qs[i].op}', f'{n} trees grown through {sizes[:si + 1]}: {qs[i].name} {got}; directly {ref[i]}')
        have = n


SCENARIOS = [('grow', grow, 1)]
QUICK_S = 45
