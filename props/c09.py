"""C09: cross-fitting uses each row out of fold exactly once and in order."""
import itertools
import math

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.linear_model import LinearRegression

import ylearn.estimator_model as em
from dst.core import Skip, Violation, attempt
from dst.simjoblib import JobSim
from . import worlds as W

RULE = ('One run: DoubleML, CausalForest or DoublyRobust over recording nuisance models, seeded rows/folds/columns, optionally fits '
        'that fail at a seeded nuisance call first; the recorded history of calls of the completed fit is checked, and the final '
        'stage input is compared with residuals recomputed from that history.')
REAL = ['DoubleML, CausalForest, DoublyRobust, GRForest', 'scikit-learn KFold and clone']
STUB = ['nuisance and final models are recorders whose predictions are a known function of (model copy, row)']
ASSUMPTIONS = ['rows are recognised by a unique value in one adjustment or covariate column']

LOG = []
UID = itertools.count(1)
RIDS = {}


def rows_of(X):
    X = np.asarray(X, dtype=float)
    for j in range(X.shape[1]):
        r = [RIDS.get(round(v, 6)) for v in X[:, j]]
        if all(v is not None for v in r):
            return tuple(r)
    return None


def g(role, uid, r):
    """prediction of copy uid for row r: any fixed pseudo-random function"""
    h = (uid * 7919 + r * 104729 + len(role) * 31 + ord(role[0]) * 13) % 1009
    return h / 1009.0 * 2 - 1


class _Rec(BaseEstimator):
    def __init__(self, role='x', nout=1):
        self.role, self.nout = role, nout
        self._uid = next(UID)

    def __deepcopy__(self, memo):
        c = type(self)(self.role, self.nout)
        u = c._uid
        c.__dict__.update(self.__dict__)
        c._uid = u
        c._from = self._uid
        return c

    def fit(self, X, y, **kw):
        rs = rows_of(X)
        LOG.append((self.role, self._uid, 'fit-begin', rs))
        W.PLAN.tick('fit')
        self.n_ = len(y)
        self.fitted_ = True
        if isinstance(self, ClassifierMixin):
            self.classes_ = np.unique(y)
        LOG.append((self.role, self._uid, 'fit', rs, np.array(y, dtype=float)))
        return self

    def _pred(self, X):
        rs = rows_of(X)
        LOG.append((self.role, self._uid, 'predict', rs, hasattr(self, 'fitted_')))
        W.PLAN.tick('predict')
        return np.array([np.nan if r is None else g(self.role, self._uid, r) for r in (rs or [None] * len(X))])


class RecReg(_Rec, RegressorMixin):
    def predict(self, X):
        p = self._pred(X)
        return p if self.nout == 1 else np.stack([p + 3 * j for j in range(self.nout)], axis=1)


class RecCls(_Rec, ClassifierMixin):
    def predict_proba(self, X):
        p = self._pred(X)
        return proba(p, len(self.classes_))

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def proba(p, k):
    out = []
    for q in p:                    # row by row, so that a value does not depend on the batch it is computed in
        e = [math.exp(float(q) * j) for j in range(k)]
        s = sum(e)
        out.append([t / s for t in e])
    return np.array(out).reshape(len(out), k)


class RecFinal(BaseEstimator, RegressorMixin):
    """final-stage model: records what it is given, then fits a line"""

    def __init__(self, role='final'):
        self.role = role

    def fit(self, X, y, **kw):
        LOG.append((self.role, id(self), 'fit', np.array(X, dtype=float), np.array(y, dtype=float)))
        W.PLAN.tick('fit')
        m = LinearRegression().fit(X, y)
        self.coef_, self.intercept_, self.m_ = m.coef_, m.intercept_, m
        return self

    def predict(self, X):
        return self.m_.predict(X)


def check_role(sim, role, log, n, k, who, seen_uids):
    """the call history of one nuisance role within one completed fit; returns row -> uid that predicted it"""
    ev = [e for e in log if e[0] == role]
    fits = [e for e in ev if e[2] == 'fit']
    uids = [e[1] for e in fits]
    sig = f'{who}.{role}'

    def bad(kind, msg):
        raise Violation(kind, sig, f'cf_fold={k}, rows={n}: {msg}')
    if len(uids) != max(k, 1):
        bad('copies-fitted', f'{len(uids)} fits of the {role} model instead of {max(k, 1)}')
    if len(set(uids)) != len(uids):
        bad('copy-fitted-twice', f'copies {uids}')
    if set(uids) & seen_uids:
        bad('copy-reused', 'a copy of an earlier fit was fitted again')
    trained = {}
    for e in fits:
        if e[3] is None:
            bad('rows-unknown', 'nuisance model was not given the rows of the data')
        if len(set(e[3])) != len(e[3]):
            bad('row-duplicated', f'a row occurs twice in one training set')
        trained[e[1]] = set(e[3])
    done = set()
    by_row = {}
    for e in ev:
        if e[2] == 'fit':
            done.add(e[1])
        if e[2] == 'predict':
            if e[1] not in done:
                bad('predict-before-fit', f'copy {e[1]} predicted before its fit completed')
            if e[3] is None:
                bad('rows-unknown', 'predict was not given rows of the data')
            for r in e[3]:
                if r in by_row and by_row[r] != e[1]:
                    bad('row-predicted-twice', f'row {r} predicted by two copies')
                by_row[r] = e[1]
    if k > 1:
        held = [frozenset(range(n)) - frozenset(t) for t in trained.values()]
        tot = sum(len(h) for h in held)
        if tot != n or set().union(*held) != set(range(n)):
            bad('folds', f'held-out sets {[sorted(h)[:8] for h in held]} do not partition the rows')
        for r, u in by_row.items():
            if r in trained[u]:
                bad('leak', f'row {r} was predicted by a copy trained on it')
    else:
        if trained[uids[0]] != set(range(n)):
            bad('folds', 'the single copy was not trained on all rows')
    if set(by_row) != set(range(n)):
        bad('rows-missing', f'rows without a first-stage prediction: {sorted(set(range(n)) - set(by_row))[:8]}')
    sim.count('nuisance-histories-checked')
    return by_row


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)


def build(sim, which):
    disc = which == 'DR' or not sim.flip(40, 'cont-treat')
    n = sim.between(12, 45, 'rows') if not sim.flip(8, 'more-rows') else sim.pick([101, 130, 257], 'many-rows')
    k = [1, 2, 3, 4, 5, sim.between(6, 12, 'more'), min(n, 45)][sim.weighted([4, 4, 4, 3, 3, 2, 1], 'folds')]
    kt = sim.between(2, 3, 'arms') if disc else 0
    two_x = sim.flip(25, 'two-treatments')
    yd = 1 if which == 'CF' else sim.between(1, 2, 'outcomes')
    rs = sim.nprng()
    d = {}
    rid = np.round(rs.permutation(n) * 1.37 + 1000.123, 6)
    RIDS.clear()
    RIDS.update({round(float(v), 6): i for i, v in enumerate(rid)})
    in_w = sim.flip(60, 'id-in-adjustment')
    nv, nw = sim.between(1, 2, 'nv'), sim.between(0 if not in_w else 1, 2, 'nw')
    v = [f'v{i}' for i in range(nv)]
    w = [f'w{i}' for i in range(nw)]
    for c in v + w:
        d[c] = rs.normal(size=n)
    d[(w if in_w else v)[-1]] = rid
    xs = ['x', 'x2'] if two_x else ['x']
    for c in xs:
        if disc:
            m = kt if c == 'x' else 2
            vals = np.arange(n) % m if sim.flip(50, 'arms-cycle') else rs.randint(0, m, n)
            vals = np.where(np.arange(n) < 0, 0, vals)
            d[c] = vals if not sim.flip(30, 'text-arms') else np.array(['p', 'q', 'r'], dtype=object)[vals]
        else:
            d[c] = rs.normal(size=n)
    ys = ['y', 'y2'][:yd]
    for c in ys:
        d[c] = rs.normal(size=n)
    df = pd.DataFrame(d)
    df = df[sim.shuffled(list(df.columns), 'column-order')]
    if sim.flip(50, 'odd-index'):
        df.index = rs.permutation(n) + 7
    cov = list(v)
    if sim.flip(20, 'covariate-order'):
        cov = cov[::-1]
    return dict(df=df, n=n, k=k, disc=disc, xs=xs, ys=ys, v=cov, w=w, yd=yd, kfold=sim.pick([k, float(k)], 'fold-type') if k > 1 else k)


def onehot(df, xs):
    if len(xs) == 1:
        cats = np.unique(df[xs[0]].to_numpy())
        lab = np.searchsorted(cats, df[xs[0]].to_numpy())
        k = len(cats)
    else:
        cs = [np.unique(df[c].to_numpy()) for c in xs]
        labs = [np.searchsorted(c, df[x].to_numpy()) for c, x in zip(cs, xs)]
        grid = {}
        for i, t in enumerate(itertools.product(*[range(len(c)) for c in cs])):
            grid[t] = i
        lab = np.array([grid[t] for t in zip(*labs)])
        k = len(grid)
        # an empty combination has no column of its own (the encoder is fitted to the values that occur)
        used = np.unique(lab)
        lab = np.searchsorted(used, lab)
        k = len(used)
    return np.eye(k)[lab]


def crossfit(sim):
    which = ['DML', 'CF', 'DR'][sim.weighted([4, 2, 3], 'which')]
    c = build(sim, which)
    df, n, k = c['df'], c['n'], c['k']
    W.PLAN.disarm()
    LOG.clear()
    xm = RecCls('x') if c['disc'] else RecReg('x', len(c['xs']))
    ym = RecReg('y', c['yd'])
    fp = dict(n_estimators=3, random_state=sim.choose(3, 'seed'), max_depth=3, n_jobs=[None, 2][sim.choose(2, 'n_jobs')])
    if which == 'DML':
        est = em.DoubleML(x_model=xm, y_model=ym, yx_model=RecFinal(), cf_fold=c['kfold'], is_discrete_treatment=c['disc'])
    elif which == 'CF':
        est = em.CausalForest(x_model=xm, y_model=ym, cf_fold=c['kfold'], is_discrete_treatment=c['disc'], **fp)
    else:
        est = em.DoublyRobust(x_model=xm, y_model=ym, yx_model=RecFinal(), cf_fold=c['kfold'])
    kw = dict(outcome=c['ys'] if c['yd'] > 1 else 'y', treatment=c['xs'] if len(c['xs']) > 1 else 'x', covariate=list(c['v']))
    if c['w']:
        kw['adjustment'] = list(c['w'])
    sim.note(which, {q: c[q] for q in ('n', 'k', 'disc', 'xs', 'ys', 'v', 'w')})
    sim.mark(which, n, k, c['disc'], len(c['xs']), c['yd'])
    seen = set()
    with JobSim(sim, mode='order'):
        for _ in range(sim.weighted([5, 3, 1], 'failed-fits')):
            W.PLAN.arm(sim.choose(4 * k + 3, 'fail-at-call'), W.NuisanceFailed('injected'))
            o = attempt(lambda: (est.fit(df, **kw), None)[1])
            W.PLAN.disarm()
            if W.PLAN.fired:
                sim.fault('nuisance-model-error')
            W.PLAN.fired = 0
            sim.note('earlier fit', o.ok)
            seen |= {e[1] for e in LOG if e[2] in ('fit', 'fit-begin') and e[0] in 'xy'}
            LOG.clear()
        o = attempt(lambda: (est.fit(df, **kw), None)[1])
        sim.note('fit', o.ok, o.exc, [(e[0], e[2], len(e[3]) if e[3] is not None else -1) for e in LOG])
        if not o.ok:
            raise Skip('fit rejected: ' + o.exc)
        log = list(LOG)
        LOG.clear()
        who = {'DML': 'DoubleML', 'CF': 'CausalForest', 'DR': 'DoublyRobust'}[which]
        for m in (xm, ym):
            if hasattr(m, 'fitted_'):
                raise Violation('template-fitted', f'{who}.{m.role}', 'the model passed by the caller was fitted itself')
        bx = check_role(sim, 'x', log, n, k, who, seen)
        by = check_role(sim, 'y', log, n, k, who, seen)
        # the final stage, recomputed from the history
        if c['disc']:
            X = onehot(df, c['xs'])
            if any(len(np.unique(e[4])) != X.shape[1] for e in log if e[0] == 'x' and e[2] == 'fit'):
                raise Skip('a training fold lacks a treatment value: class probabilities have no agreed columns')
            xh = np.array([proba([g('x', bx[r], r)], X.shape[1])[0] for r in range(n)])
        else:
            X = df[c['xs']].to_numpy(dtype=float)
            xh = np.array([[g('x', bx[r], r) + 3 * j for j in range(len(c['xs']))] for r in range(n)])
        Y = df[c['ys']].to_numpy(dtype=float)
        yh = np.array([[g('y', by[r], r) + 3 * j for j in range(c['yd'])] for r in range(n)])
        V = df[c['v']].to_numpy(dtype=float)
        fin = [e for e in log if e[0] == 'final']

        def bad(kind, msg):
            raise Violation(kind, who, f'cf_fold={k}, rows={n}: {msg}')
        if which == 'DML':
            if len(fin) != 1:
                bad('final-fits', f'{len(fin)} fits of the final model')
            gx, gy = fin[0][3], fin[0][4]
            if not near(gy.reshape(n, -1), Y - yh):
                bad('final-outcome', 'the outcome residuals of the final stage are not y minus the out-of-fold prediction, in data order')
            V1 = np.hstack([np.ones((n, 1)), V])
            want = np.einsum('ni,nj->nij', X - xh, V1).reshape(n, -1)
            if gx.shape != want.shape or not near(np.sort(gx, axis=1), np.sort(want, axis=1)):
                bad('final-treatment', 'the treatment residuals of the final stage are not x minus the out-of-fold prediction, in data order')
        elif which == 'DR':
            if len(fin) != X.shape[1]:
                bad('final-fits', f'{len(fin)} fits of the final model for {X.shape[1]} treatment values')
            full = yh[:, :, None] + (Y - yh)[:, :, None] * X[:, None, :] / (xh[:, None, :] + 1e-5)
            want = full - full[:, :, :1]
            order = []
            for e in fin:
                if not near(e[3], V):
                    bad('final-rows', 'the final model did not get the covariates in data order')
                hits = [i for i in range(X.shape[1]) if near(e[4].reshape(n, -1), want[:, :, i])]
                if not hits:
                    bad('final-outcome', 'the target of a final model is not the doubly robust value from out-of-fold predictions, in data order')
                order.append(hits)
            if not any(len(set(p)) == len(p) for p in itertools.islice(itertools.product(*order), 2000)):
                bad('final-outcome', 'two final models got the target of the same treatment value')
        else:
            ref = em.GRForest(is_discrete_treatment=c['disc'], **fp)
            rx = np.delete(X - xh, 0, axis=1) if c['disc'] else X - xh
            rd = {f'__v{i}': V[:, i] for i in range(V.shape[1])}
            rd.update({f'__x{i}': rx[:, i] for i in range(rx.shape[1])})
            rd.update({f'__y{i}': (Y - yh)[:, i] for i in range(c['yd'])})
            rdf = pd.DataFrame(rd)
            vn, xn = [q for q in rd if q[2] == 'v'], [q for q in rd if q[2] == 'x']
            ref.fit(rdf, '__y0', xn if len(xn) > 1 else xn[0], covariate=vn)
            a, b = np.asarray(est.estimate()), np.asarray(ref.estimate())
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True):
                bad('final-forest', f'the forest does not equal one grown on the out-of-fold residuals in data order: '
                                    f'{a.ravel()[:4]} vs {b.ravel()[:4]}')
        sim.count('final-stages-checked')
        q = attempt(lambda: est.estimate(data=df))
        if any(e[2] == 'fit' for e in LOG):
            bad('query-fits', 'a query fitted a model')
        sim.note('estimate', q.ok)


SCENARIOS = [('crossfit', crossfit, 10)]
QUICK_S = 45
