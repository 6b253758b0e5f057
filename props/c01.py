"""C01: forest results do not depend on how the worker threads are scheduled."""
import numpy as np
import pandas as pd

from dst.core import Skip, Violation, attempt, fp, outcome_same, same
from dst.simjoblib import JobSim, perturb_rng
from . import forests as F
from . import worlds as W

RULE = ('One run: one forest with seeded settings and data, fitted and queried once sequentially and then under 1-3 seeded worker '
        'schedules (number of workers, batch sizes, order or line-level interleaving, generator states); or one fitted forest whose '
        'queries are split, permuted, repeated and enlarged.')
REAL = ['GRForest, CausalForest, GrfTree and its compiled criterion/splitter/builder', 'joblib.Parallel dispatch and ordering']
STUB = ['joblib worker back ends (simulated workers; interleaving at executed ylearn source lines)']
ASSUMPTIONS = ['compiled tree code runs without hand-over inside it (it holds the interpreter lock)',
               'results that differ by less than 1e-6 relative are rounding']

TOL = dict(rtol=1e-6, atol=1e-8)


def _kind(sim):
    return (F.GRF if sim.flip(50, 'grf') else F.CF)(sim)


class GrowthLog:
    """which rows every tree is grown on, seen at the tree's own training entry point"""

    def __init__(self):
        from ylearn.estimator_model._generalized_forest.tree import _grf_tree as m
        self.m, self.calls = m, []

    def __enter__(self):
        self.cls = getattr(self.m, 'GrfTree', None)
        self.orig = self.cls.__dict__.get('_fit_with_array') if self.cls else None
        if self.orig is not None:
            log, orig = self.calls, self.orig

            def rec(tree, x, y, w, v, *a, **k):
                log.append(np.array(v, dtype=float))
                return orig(tree, x, y, w, v, *a, **k)
            self.cls._fit_with_array = rec
        return self

    def __exit__(self, *a):
        if self.orig is not None:
            self.cls._fit_with_array = self.orig


def check_growth(sim, kind, w, obj, grown, how):
    f = F.forest_of(obj)
    trees = list(getattr(f, 'estimators_', []))
    n = len(w.df)
    sub, grow = F.requested(kind.opts, n)
    name = kind.name
    if len(trees) != kind.opts['n_estimators']:
        raise Violation('tree-count', name, f'{how}: {len(trees)} trees instead of {kind.opts["n_estimators"]}')
    for i, t in enumerate(trees):
        c = int(t.tree_.n_node_samples[0])
        if c != grow:
            raise Violation('sub-sample-size', name, f'{how}: tree {i} is grown on {c} rows, requested {grow} (of sub-sample {sub}, '
                                                     f'{n} rows, settings {kind.opts})')
    sim.count('trees-checked', len(trees))
    tv = w.df[w.v].values.astype(float)
    key = {tuple(r): i for i, r in enumerate(tv)}
    sets = []
    for g in grown:
        rows = [key.get(tuple(r)) for r in np.asarray(g, dtype=float)]
        if any(r is None for r in rows):
            return
        if len(set(rows)) != len(rows):
            raise Violation('rows-not-distinct', name, f'{how}: a tree is grown on rows {sorted(rows)}')
        sets.append(frozenset(rows))
    if len(sets) > 2 and grow < n - 2 and len(set(sets)) == 1:
        raise Violation('same-rows-in-all-trees', name, f'{how}: all {len(sets)} trees are grown on {sorted(sets[0])}')
    sim.count('row-sets-checked', len(sets))


def schedules(sim):
    kind = _kind(sim)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    w = kind.world(sim, tag='0')
    sp = kind.spec(sim, w)
    want_j = kind.opts['n_jobs']
    kind.opts['n_jobs'] = None
    with GrowthLog() as gl:
        ref = W.fitted(kind, sp)               # no simulated workers: one after another in the calling thread
    if ref is None:
        raise Skip('fit rejected')
    check_growth(sim, kind, w, ref, gl.calls, 'sequential')
    qs = F.probes(w)
    want = [q(ref) for q in qs]
    for v in range(sim.between(1, 3, 'variants')):
        kind.opts['n_jobs'] = F.N_JOBS[sim.choose(len(F.N_JOBS), 'n_jobs')] if v else want_j
        if sim.flip(50, 'perturb'):
            perturb_rng(sim)
        with F.schedule(sim) as js:
            how = f'n_jobs={kind.opts["n_jobs"]}, {js.mode}'
            with GrowthLog() as gl:
                obj = kind.make()
                o = attempt(lambda: (sp.call(obj), None)[1])
            if not o.ok:
                raise Violation('fit-fails', kind.name, f'{how}: {o}; sequentially the fit completes')
            check_growth(sim, kind, w, obj, gl.calls, how)
        for pas in range(sim.between(1, 2, 'passes')):
            order = sim.shuffled(range(len(qs)))
            with F.schedule(sim) as js2:
                for i in order[:4]:
                    got = qs[i](obj)
                    sim.note(how, js2.mode, qs[i].name, got.ok, fp(got.val) if got.ok else got.exc)
                    sim.mark(qs[i].name, got.ok)
                    sim.count('answers-compared')
                    if not outcome_same(want[i], got, **TOL):
                        raise Violation('schedule-dependent', f'{kind.name}.{qs[i].op}',
                                        f'fit with {how}, query {qs[i].name} with {js2.mode}: {got}; sequentially {want[i]}')
        # the fitted forest queried without simulated workers
        if sim.flip(40, 'sequential-query'):
            i = sim.choose(len(qs), 'which')
            got = qs[i](obj)
            if not outcome_same(want[i], got, **TOL):
                raise Violation('schedule-dependent', f'{kind.name}.{qs[i].op}',
                                f'fit with {how}, query {qs[i].name} sequentially: {got}; fitted sequentially {want[i]}')


def rows(sim):
    kind = _kind(sim)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    w = kind.world(sim, tag='0')
    sp = kind.spec(sim, w)
    with F.schedule(sim):
        obj = W.fitted(kind, sp)
        if obj is None:
            raise Skip('fit rejected')
        pool = pd.concat([w.test, w.df], ignore_index=True)
        rs = sim.nprng('pool')
        pool = pool.iloc[rs.permutation(len(pool))[:sim.between(4, 24, 'pool-rows')]].reset_index(drop=True)
        alone = np.concatenate([np.asarray(obj.estimate(data=pool.iloc[[i]])) for i in range(len(pool))], axis=0)
        va = pool[w.v].values.astype(np.float32)
        leaf = np.concatenate([np.asarray(obj.apply(va[[i]])) for i in range(len(pool))], axis=0)
        for k in range(sim.between(2, 4, 'tables')):
            m = [len(pool), sim.between(1, 30, 'rows'), sim.between(95, 110, 'rows'), sim.between(199, 260, 'rows')][sim.choose(4, 'size')]
            pick = rs.randint(len(pool), size=m) if m != len(pool) else rs.permutation(len(pool))
            t = pool.iloc[pick]
            if sim.flip(50, 'keep-index'):
                t = t.reset_index(drop=True)
            extra = sim.flip(30, 'more-columns')
            if not extra:
                t = t[w.v]
            got = attempt(lambda: np.asarray(obj.estimate(data=t)))
            sim.note('table', m, got.ok, fp(got.val) if got.ok else got.exc)
            sim.mark(m)
            sim.count('rows-compared', m)
            if m > 100:
                sim.count('several-internal-batches')
            if not got.ok:
                raise Violation('query-fails', kind.name, f'{m} rows: {got}; each row alone is answered')
            if got.val.shape != (m,) + alone.shape[1:] or not same(got.val, alone[pick], **TOL):
                bad = [int(i) for i in range(min(m, len(got.val))) if not same(np.asarray(got.val[i]), np.asarray(alone[pick[i]]), **TOL)][:5]
                raise Violation('row-dependent', f'{kind.name}.estimate',
                                f'{m} rows: shape {got.val.shape}; rows {bad} get {[got.val[i].tolist() for i in bad]}, alone '
                                f'{[alone[pick[i]].tolist() for i in bad]}')
            ga = attempt(lambda: np.asarray(obj.apply(va[pick])))
            if not ga.ok or not same(ga.val, leaf[pick]):
                raise Violation('row-dependent', f'{kind.name}.apply', f'{m} rows: {ga}; alone {leaf[pick].tolist()[:5]}')


SCENARIOS = [('schedules', schedules, 6), ('rows', rows, 4)]
QUICK_S = 45
