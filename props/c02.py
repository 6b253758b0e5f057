"""C02: parallel pairwise learners equal the pair-by-pair sequential computation."""
import itertools

import joblib
import numpy as np

from ylearn.estimator_model._permuted import PermutedLearner
from dst.core import Skip, Violation, attempt, fp, outcome_same, same
from dst.simjoblib import JobSim, perturb_rng
from . import snap as S
from . import worlds as W

RULE = ('One run: one permuted learner with seeded models, treatment values and data, fitted and queried under a seeded number of '
        'workers, back end, batching, order, interleaving and worker failures; every pair and every column is compared with the plain '
        'learner fitted alone for that pair.')
REAL = ['PermutedSLearner/TLearner/XLearner/DoublyRobust, S/T/X learners, DoublyRobust', 'joblib.Parallel dispatch, ordering, error propagation']
STUB = ['joblib worker back ends (simulated workers; tasks and results of process workers cross a pickle boundary)']
ASSUMPTIONS = ['nuisance models are deterministic functions of their training data']


class Perm(W.PermKind):
    def config(self, sim):
        c = super().config(sim)
        while c['which'] == 'tree':
            c['which'] = ['S', 'T', 'X', 'DR'][sim.choose(4, 'which')]
            c['bin'] = False
        c['prototype'] = sim.flip(30, 'caller-prototype')
        return c

    def make(self):
        if self.cfg['prototype']:
            self.proto = self.single()
            return PermutedLearner(self.proto)
        self.proto = None
        return super().make()


def values(w):
    vs = [w.treat_values[c] for c in w.x]
    return list(vs[0]) if len(vs) == 1 else [list(p) for p in itertools.product(*vs)]


class Alone:
    """the plain learner fitted alone, per pair"""

    def __init__(self, kind, sp):
        self.kind, self.sp, self.cache = kind, sp, {}

    def __call__(self, hi, lo, data, **kw):
        k = (str(hi), str(lo))
        if k not in self.cache:
            m = self.kind.single()
            self.cache[k] = (m, attempt(lambda: (m.fit(treat=hi, control=lo, **{a: v for a, v in self.sp.kwargs.items() if a != 'n_jobs'}), None)[1]))
        m, o = self.cache[k]
        if not o.ok:
            return o
        if self.kind.cfg['bin'] and 'target_outcome' not in kw:
            kw['target_outcome'] = 1
        return attempt(lambda: m.estimate(data, **kw))


def backend(sim):
    return ['', 'threading', 'loky', 'multiprocessing'][sim.weighted([5, 3, 1, 1], 'backend')]


class Schedule:
    def __init__(self, sim, fail_pct=0):
        self.js = JobSim(sim, mode=['interleave', 'order'][sim.choose(2, 'mode')], fail_pct=fail_pct)
        self.b = backend(sim)
        self.pb = joblib.parallel_backend(self.b) if self.b else None
        self.how = f'{self.b or "default back end"}, {self.js.mode}'

    def __enter__(self):
        self.js.__enter__()
        if self.pb:
            self.pb.__enter__()
        return self

    def __exit__(self, *a):
        if self.pb:
            self.pb.__exit__(*a)
        self.js.__exit__(*a)


def _neg(o):
    if not o.ok:
        return o
    import copy
    from dst.core import Out

    def n(v):
        if isinstance(v, np.ndarray):
            return -v
        if isinstance(v, float):
            return -v
        return tuple(n(x) if i else x for i, x in enumerate(v)) if isinstance(v, tuple) and v and isinstance(v[0], str) else \
            tuple(n(x) for x in v) if isinstance(v, tuple) else v
    return Out(True, n(o.val))


def pairs(sim):
    kind = Perm(sim)
    name = f'Permuted{kind.cfg["which"]}'
    sim.note('kind', name, {k: v for k, v in kind.cfg.items()})
    sim.mark(name, kind.cfg['bin'], kind.cfg['prototype'])
    w = kind.world(sim, tag='0')
    sp = kind.spec(sim, w)
    if kind.cfg['bin'] and w.df.groupby(list(w.x))['y'].nunique().min() < 2:
        raise Skip('a treatment group with one outcome class only')
    alone = Alone(kind, sp)
    vals = values(w)
    if len(vals) > 6:
        vals_q = [vals[i] for i in sorted({0, len(vals) - 1, sim.choose(len(vals), 'v1'), sim.choose(len(vals), 'v2')})]
    else:
        vals_q = vals
    obj = kind.make()
    templates = {k: v for k, v in kind.passed.items() if isinstance(v, W._Wrap)}
    if kind.proto is not None:
        templates['learner'] = kind.proto
    before = {k: S.snap(v) for k, v in templates.items()}
    fail = sim.flip(25, 'workers-fail')
    n_jobs = [None, 1, 2, 3, 4, -1, 0][sim.choose(7, 'n_jobs')]
    with Schedule(sim, fail_pct=30 if fail else 0) as sc:
        how = f'n_jobs={n_jobs}, {sc.how}'
        o = attempt(lambda: (sp.call(obj, n_jobs=n_jobs), None)[1])
        failed = sc.js.failed
    sim.note('fit', how, o.ok, o.exc, 'worker failures', failed)
    sim.mark(n_jobs, sc.b, sc.js.mode, o.ok)
    if failed:
        if o.ok:
            raise Violation('failure-hidden', name, f'{how}: {failed} worker(s) failed and fit returned normally')
        for q in kind.queries(sim, w, 3):
            r = q(obj)
            if r.ok:
                raise Violation('answers-after-failure', f'{name}.{q.op}', f'{how}: fit raised {o.exc}; query {q.name} answers {r}')
        o = attempt(lambda: (sp.call(obj), None)[1])
        how = 'retry after a failed worker'
        sim.count('retries')
    if not o.ok:
        ref = kind.single()
        r = alone(vals[-1], vals[0], None)
        if r.ok and all(alone(vals[j], vals[i], None).ok for j in range(len(vals)) for i in range(j)):
            raise Violation('fit-fails', name, f'{how}: {o}; every pair can be fitted alone')
        raise Skip('fit rejected')
    for k, v in templates.items():
        if S.snap(v) != before[k]:
            raise Violation('template-changed', f'{name}.{k}', f'{how}: the prototype was changed: {S.where(before[k], S.snap(v))}')
    if kind.proto is not None and kind.proto._is_fitted:
        raise Violation('template-changed', f'{name}.learner', 'the caller\'s learner is fitted')
    for step in range(sim.between(3, 7, 'queries')):
        dn, data = W._data_arg(sim, w)
        if sim.flip(25, 'perturb'):
            perturb_rng(sim)
        kw = {}
        if kind.cfg['bin'] and sim.flip(50, 'target'):
            kw['target_outcome'] = sim.choose(2, 'target')
        if sim.flip(60, 'pair'):
            i, j = sim.choose(len(vals_q), 'treat'), sim.choose(len(vals_q), 'control')
            if i == j:
                continue
            t, c = vals_q[i], vals_q[j]
            hi, lo = (t, c) if i > j else (c, t)
            kw2 = dict(kw)
            deft = t == vals[-1] and sim.flip(40, 'default-treat')
            defc = c == vals[0] and sim.flip(40, 'default-control')
            if not deft:
                kw2['treat'] = t
            if not defc:
                kw2['control'] = c
            qn = [None, 'ATE', 'CATE', 'ITE'][sim.choose(4, 'quantity')] if kind.cfg['which'] != 'DR' or True else None
            if qn:
                kw2['quantity'] = qn
            got = attempt(lambda: obj.estimate(data, **kw2))
            want = alone(hi, lo, data, **kw, **({'quantity': qn} if qn else {}))
            if i < j:
                want = _neg(want)
            sim.note('estimate', dn, t, c, qn, got.ok, fp(got.val) if got.ok else got.exc)
            sim.count('pairs-compared' if got.ok else 'pairs-refused')
            sim.mark('pair', i, j, dn, qn)
            if not outcome_same(want, got):
                raise Violation('pair-differs', f'{name}.estimate', f'{how}: treat={t} control={c} data={dn} {kw2}: {got}; the plain '
                                                                    f'learner fitted alone for this pair gives {want}')
        else:
            j = sim.choose(len(vals_q), 'control')
            c = vals_q[j]
            ji = vals.index(c)
            kw2 = dict(kw)
            if not (ji == 0 and sim.flip(50, 'default-control')):
                kw2['control'] = c
            nj = [None, 1, 2, 3, 0][sim.choose(5, 'q-n_jobs')]
            with Schedule(sim, fail_pct=15 if fail else 0) as sc:
                got = attempt(lambda: obj.effect_nji(data, n_jobs=nj, **kw2))
                if sc.js.failed:
                    if got.ok:
                        raise Violation('failure-hidden', f'{name}.effect_nji', f'{sc.js.failed} worker(s) failed, an answer was returned')
                    got = None
            if got is None:
                got = attempt(lambda: obj.effect_nji(data, **kw2))
            sim.note('effect_nji', dn, c, nj, sc.how, got.ok, fp(got.val) if got.ok else got.exc)
            sim.mark('nji', j, dn, nj, sc.b)
            want = []
            for i, t in enumerate(vals):
                if i == ji:
                    want.append(None)
                    continue
                hi, lo = (t, c) if i > ji else (c, t)
                o2 = alone(hi, lo, data, **kw)
                want.append(o2 if i > ji else _neg(o2))
            sim.count('tables-compared' if got.ok else 'tables-refused')
            if all(x is None or x.ok for x in want):
                if not got.ok:
                    raise Violation('nji-fails', name, f'effect_nji control={c} data={dn}: {got}; every pair answers alone')
                g = np.asarray(got.val, dtype=float)
                n = len(w.df) if data is None else len(data)
                if g.shape[0] != n or g.shape[2] != len(vals):
                    raise Violation('nji-shape', name, f'effect_nji control={c} data={dn}: shape {g.shape}, {n} rows, {len(vals)} values')
                for i, x in enumerate(want):
                    col = g[:, :, i].reshape(n, -1)
                    e = np.zeros_like(col) if x is None else np.asarray(x.val, dtype=float).reshape(n, -1)
                    if not same(col, e):
                        raise Violation('column-differs', f'{name}.effect_nji', f'{sc.how}: column {i} (value {vals[i]}) against control {c}: '
                                                                               f'{col[:3].tolist()}; the pair alone {e[:3].tolist()}')


SCENARIOS = [('pairs', pairs, 1)]
QUICK_S = 45
