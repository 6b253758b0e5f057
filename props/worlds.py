"""Worlds: small generated data sets, the estimators under test, fit specifications and queries.
Everything is a function of the simulator's choices."""
import copy
import os
import numpy as np
import pandas as pd
import torch
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

import ylearn.estimator_model as em
from ylearn.estimator_model import deepiv
from ylearn.estimator_model._factory import DeepIVWrapper
from ylearn.estimator_model.effect_score import RLoss
from ylearn.estimator_model._permuted import PermutedCausalTree
from ylearn.estimator_model.causal_tree import CTCausalForest
from ylearn.policy.policy_model import PolicyTree
from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
from ylearn.effect_interpreter.ce_interpreter import CEInterpreter
from ylearn.uplift import UpliftModel
from dst.core import Sim, Skip, attempt


# ---------------------------------------------------------------------------- nuisance models
class NuisanceFailed(ValueError):
    pass


class Plan:
    """fault plan of one run: calls of user-supplied models, counted, fail on demand"""

    def __init__(self):
        self.countdown = None
        self.exc = None
        self.fired = 0
        self.calls = 0

    def arm(self, n, exc):
        self.countdown, self.exc, self.fired = n, exc, 0

    def disarm(self):
        self.countdown = None

    def tick(self, what):
        self.calls += 1
        if self.countdown is not None:
            if self.countdown == 0:
                self.countdown = None
                self.fired += 1
                raise self.exc
            self.countdown -= 1


PLAN = Plan()


class _Wrap(BaseEstimator):
    """a user-supplied model: delegates to sklearn; its calls can be made to fail by the fault plan"""

    def __init__(self, base=None, random_state=None):
        self.base = base
        self.random_state = random_state

    def _mk(self):
        import sklearn
        return sklearn.clone(self.base)

    def fit(self, X, y, **kw):
        PLAN.tick('fit')
        m = self._mk()
        m.fit(np.array(X, order='C'), y, **kw)
        self.m_ = m
        for a in ('coef_', 'intercept_', 'classes_'):
            if hasattr(m, a):
                setattr(self, a, getattr(m, a))
        return self

    def predict(self, X):
        PLAN.tick('predict')
        return self.m_.predict(np.array(X, order='C'))


class WReg(_Wrap, RegressorMixin):
    pass


class WCls(_Wrap, ClassifierMixin):
    def predict_proba(self, X):
        PLAN.tick('predict_proba')
        return self.m_.predict_proba(np.array(X, order='C'))


def regressor(sim, linear=False):
    if linear:
        base = [LinearRegression(), Ridge(alpha=0.5)][sim.choose(2, 'reg')]
    else:
        base = [LinearRegression(), Ridge(alpha=0.5), DecisionTreeRegressor(max_depth=3, random_state=7)][sim.choose(3, 'reg')]
    return WReg(base)


def classifier(sim):
    return WCls([LogisticRegression(max_iter=60), DecisionTreeClassifier(max_depth=3, random_state=7)][sim.choose(2, 'cls')])


# ---------------------------------------------------------------------------- data
class World:
    """a data set plus the roles of its columns"""

    def __init__(self, sim, treat='disc', y='cont', multi_x=None, instrument=False, n=None, treat_kinds=None,
                 need_v=True, need_w=False, tag=''):
        self.n = n = n or sim.between(24, 60, 'rows')
        rs = sim.nprng('data' + tag)
        names = [['w1', 'w2'], ['a', 'b'], ['q1', 'q2', 'q3']][sim.choose(3, 'wnames')]
        vnames = [['v1', 'v2'], ['c', 'd'], ['v1'], ['r1', 'r2', 'r3']][sim.choose(4, 'vnames')]
        if names == ['a', 'b'] and sim.flip(50, 'swap'):
            names = ['b', 'a']
        self.w, self.v = list(names), list(vnames)
        d = {}
        for c in self.w + self.v:
            d[c] = rs.normal(size=n)
        base = sum(d[c] for c in self.w) * 0.4
        self.treat_kind = treat
        self.treat_values = {}
        self.x = ['x']
        if treat == 'disc':
            kinds = treat_kinds or ['int2', 'int3', 'str2', 'str3', 'intoff']
            if multi_x is None:
                multi_x = sim.flip(20, 'two-treatments')
            self.x = ['x', 'xx'] if multi_x else ['x']
            for c in self.x:
                k = sim.pick(kinds if not multi_x else [q for q in kinds if q in ('int2', 'str2', 'int3')] or kinds, 'tkind')
                vals = {'int2': [0, 1], 'int3': [0, 1, 2], 'str2': ['no', 'yes'], 'str3': ['a', 'b', 'c'],
                        'intoff': [3, 5, 8], 'int2off': [1, 2]}[k]
                m = len(vals)
                p = rs.rand(n, m) + 0.4
                idx = (p + 0.1 * base[:, None] * np.arange(m)).argmax(1)
                reps = 3
                idx[:m * reps] = np.tile(np.arange(m), reps)     # every value occurs in each fold-sized block start
                perm = rs.permutation(n)
                idx = idx[perm]
                d[c] = np.array(vals, dtype=object if isinstance(vals[0], str) else None)[idx]
                self.treat_values[c] = vals
                base = base + 0.7 * idx
        else:
            if multi_x is None:
                multi_x = False
            self.x = ['x', 'xx'] if multi_x else ['x']
            for c in self.x:
                d[c] = 0.5 * base + rs.normal(size=n)
                base = base + 0.7 * d[c]
        self.z = None
        if instrument:
            self.z = ['z']
            d['z'] = rs.normal(size=n)
        lin = base + 0.3 * d[self.v[0]] + rs.normal(size=n) * 0.3
        self.ykind = y
        self.y = ['y']
        if y == 'cont':
            d['y'] = lin
        elif y == 'bin':
            d['y'] = (lin > np.median(lin)).astype(int)
        elif y == 'cat':
            d['y'] = np.array(['lo', 'mid', 'hi'], dtype=object)[np.digitize(lin, np.quantile(lin, [0.33, 0.66]))]
        elif y == 'int3':
            d['y'] = np.digitize(lin, np.quantile(lin, [0.33, 0.66]))
        elif y == 'cont2':
            self.y = ['y', 'yy']
            d['y'] = lin
            d['yy'] = -lin + rs.normal(size=n)
        df = pd.DataFrame(d)
        cols = list(df.columns)
        rs.shuffle(cols)
        df = df[cols]
        if sim.flip(30, 'odd-index'):
            df.index = rs.permutation(n) + 100
        self.df = df
        k = max(3, n // 3)
        self.test = df.iloc[rs.permutation(n)[:k]].copy()
        nt = self.test[self.v + self.w] + rs.normal(size=(k, len(self.v + self.w))) * 0.3
        for c in self.v + self.w:
            self.test[c] = nt[c]

    def tval(self, sim, what):
        """a treatment value argument (single or list for several treatments), or None"""
        if sim.flip(40, what + '-default'):
            return None
        v = [sim.pick(self.treat_values[c], what) for c in self.x]
        return v[0] if len(v) == 1 else v


def cols(c, sim=None):
    """a column-role argument in the forms the API accepts"""
    if c is None:
        return None
    return c[0] if len(c) == 1 else list(c)


class Spec:
    """one call of fit"""

    def __init__(self, world, kwargs, pos=('data', 'outcome', 'treatment')):
        self.world = world
        self.kwargs = kwargs

    def call(self, est, **over):
        kw = {k: copy.deepcopy(v) if not isinstance(v, pd.DataFrame) else v for k, v in self.kwargs.items()}
        kw.update(over)
        return est.fit(**kw)


class SeededSpec(Spec):
    """a fit documented to draw from the process-wide generator: that generator is put in a known state first"""

    def __init__(self, world, kwargs, seed):
        super().__init__(world, kwargs)
        self.seed = seed

    def call(self, est, **over):
        np.random.seed(self.seed)
        return super().call(est, **over)


class Query:
    f = None              # the method asked, where a query is one call with keywords

    def __init__(self, name, fn, /, **kw):
        self.name, self.fn, self.kw = name, fn, kw
        self.op = name.split('(')[0].split(':')[0]

    def __call__(self, est):
        return attempt(self.fn, est)

    def portable(self):
        """a form that can be sent to another process"""
        return Portable(self)


class Portable:
    def __init__(self, q):
        import cloudpickle
        self.blob = cloudpickle.dumps(q.fn)

    def __call__(self, est):
        import pickle
        return attempt(pickle.loads(self.blob), est)


def _data_arg(sim, w):
    k = sim.choose(3, 'query-data')
    return [('none', None), ('test', w.test), ('train', w.df)][k]


# ---------------------------------------------------------------------------- kinds
class Kind:
    name = ''
    forest = False
    flaky = True          # has user-supplied models

    def __init__(self, sim):
        self.sim = sim
        self.cfg = self.config(sim)
        self.passed = {}

    def config(self, sim):
        return {}

    def fresh_cfg(self):
        self.passed = copy.deepcopy(self.cfg)       # what the caller hands over
        return self.passed

    def make(self):
        raise NotImplementedError

    def world(self, sim, tag=''):
        return World(sim, tag=tag)

    def spec(self, sim, w):
        raise NotImplementedError

    def query(self, sim, w):
        raise NotImplementedError

    def queries(self, sim, w, k):
        return [self.query(sim, w) for _ in range(k)]


def _q(qname, f, /, **kw):
    desc = ','.join(f'{k}={"df%d" % len(v) if isinstance(v, pd.DataFrame) else v}' for k, v in kw.items())
    q = Query(f'{qname}({desc})', lambda e: getattr(e, f)(**kw), **kw)
    q.f = f
    return q


class MetaKind(Kind):
    cls = None

    def config(self, sim):
        ykind = ['cont', 'bin', 'cat', 'bin-noproba', 'int3'][sim.weighted([5, 2, 2, 1, 1], 'outcome-kind')]
        c = dict(ykind=ykind.split('-')[0], disc=ykind != 'cont', proba=ykind in ('bin', 'cat', 'int3'))
        if c['disc']:
            c['model'] = classifier(sim)
            c['final'] = regressor(sim)
        else:
            c['model'] = regressor(sim)
        return c

    def make(self):
        c = self.fresh_cfg()
        kw = {}
        if self.cls is em.XLearner and c['disc']:
            kw['final_proba_model'] = c['final']
        return self.cls(c['model'], is_discrete_outcome=c['disc'], proba_output=c['proba'], **kw)

    def world(self, sim, tag=''):
        return World(sim, y=self.cfg['ykind'], tag=tag)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), combined_treatment=not sim.flip(30, 'separate'))
        r = sim.choose(3, 'roles')
        if r in (0, 1):
            kw['covariate'] = cols(w.v)
        if r in (0, 2):
            kw['adjustment'] = cols(w.w)
        t, c = w.tval(sim, 'treat'), w.tval(sim, 'control')
        if t is not None:
            kw['treat'] = t
        if c is not None:
            kw['control'] = c
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        if sim.flip(35, 'nji'):
            return _q(f'effect_nji:{n}', 'effect_nji', data=d)
        kw = dict(data=d)
        q = [None, 'ATE', 'CATE', 'ITE'][sim.choose(4, 'quantity')]
        if q:
            kw['quantity'] = q
        if self.cfg['proba'] and sim.flip(60, 'target'):
            kw['target_outcome'] = sim.pick(sorted(set(w.df['y'].tolist()), key=str), 'target_outcome')
        if self.cls is em.XLearner and sim.flip(25, 'rho'):
            kw['rho'] = 0.2
        return _q(f'estimate:{n}', 'estimate', **kw)


class SKind(MetaKind):
    name, cls = 'SLearner', em.SLearner


class TKind(MetaKind):
    name, cls = 'TLearner', em.TLearner


class XKind(MetaKind):
    name, cls = 'XLearner', em.XLearner


class DMLKind(Kind):
    name = 'DoubleML'

    def config(self, sim):
        disc = not sim.flip(35, 'cont-treat')
        yk = ['cont', 'cont2', 'bin'][sim.weighted([6, 2, 2], 'outcome-kind')]
        return dict(disc=disc, ykind=yk, x=classifier(sim) if disc else WReg(LinearRegression()),
                    y=classifier(sim) if yk == 'bin' else WReg(LinearRegression()),
                    yx=[None, WReg(LinearRegression())][sim.choose(2, 'yx')], fold=[1, 2, 3][sim.choose(3, 'folds')],
                    ct=[0, 0, 1, 2][sim.choose(4, 'cov-transformer')], at=sim.choose(4, 'adj-transformer') == 3)

    def make(self):
        c = self.fresh_cfg()
        kw = {}
        if c['ct']:
            kw['covariate_transformer'] = PolynomialFeatures(degree=2, include_bias=False) if c['ct'] == 1 else StandardScaler()
        if c['at']:
            kw['adjustment_transformer'] = StandardScaler()
        return em.DoubleML(x_model=c['x'], y_model=c['y'], yx_model=c['yx'], cf_fold=c['fold'],
                           is_discrete_treatment=c['disc'], is_discrete_outcome=c['ykind'] == 'bin',
                           proba_output=c['ykind'] == 'bin', **kw)

    def world(self, sim, tag=''):
        return World(sim, treat='disc' if self.cfg['disc'] else 'cont', y=self.cfg['ykind'], tag=tag,
                     multi_x=None if self.cfg['disc'] else sim.flip(30, 'two-treatments'))

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v))
        if sim.flip(60, 'adj'):
            kw['adjustment'] = cols(w.w)
        if self.cfg['disc'] and sim.flip(35, 'fit-treat'):
            t = w.tval(sim, 'treat')
            if t is not None:
                kw['treat'] = t
        if self.cfg['disc'] and sim.flip(35, 'fit-control'):
            t = w.tval(sim, 'control')
            if t is not None:
                kw['control'] = t
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        kw = dict(data=d)
        if sim.flip(35, 'nji'):
            if self.cfg['disc'] and sim.flip(40, 'nji-control'):
                kw['control'] = w.tval(sim, 'q-control')
            return _q(f'effect_nji:{n}', 'effect_nji', **kw)
        if self.cfg['disc']:
            t, c = w.tval(sim, 'q-treat'), w.tval(sim, 'q-control')
            if t is not None:
                kw['treat'] = t
            if c is not None:
                kw['control'] = c
        elif sim.flip(40, 'q-treat'):
            kw['treat'] = np.full((1, len(w.x)), 2.0) if sim.choose(2, 'ti') else np.array([[1.5] * len(w.x)])
            kw['control'] = np.zeros((1, len(w.x)))
        q = [None, 'ATE', 'CATE', 'ITE'][sim.choose(4, 'quantity')]
        if q:
            kw['quantity'] = q
        if self.cfg['ykind'] == 'bin' and sim.flip(50, 'target'):
            kw['target_outcome'] = sim.choose(2, 'target')
        return _q(f'estimate:{n}', 'estimate', **kw)


class DRKind(Kind):
    name = 'DoublyRobust'

    def config(self, sim):
        return dict(x=classifier(sim), y=regressor(sim), yx=regressor(sim), fold=[1, 2, 3][sim.choose(3, 'folds')],
                    ykind=['cont', 'cont2'][sim.weighted([5, 1], 'outcome-kind')])

    def make(self):
        c = self.fresh_cfg()
        return em.DoublyRobust(x_model=c['x'], y_model=c['y'], yx_model=c['yx'], cf_fold=c['fold'])

    def world(self, sim, tag=''):
        return World(sim, y=self.cfg['ykind'], tag=tag)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v))
        r = sim.choose(3, 'roles')
        if r:
            kw['adjustment'] = cols(w.w)
        if r == 2:
            kw.pop('covariate')
        t, c = w.tval(sim, 'treat'), w.tval(sim, 'control')
        if t is not None:
            kw['treat'] = t
        if c is not None:
            kw['control'] = c
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        kw = dict(data=d)
        if sim.flip(30, 'nji'):
            return _q(f'effect_nji:{n}', 'effect_nji', **kw)
        t = w.tval(sim, 'q-treat')
        if t is not None:
            kw['treat'] = t
        q = [None, 'ATE', 'CATE', 'ITE'][sim.choose(4, 'quantity')]
        if q:
            kw['quantity'] = q
        if sim.flip(20, 'all-tr'):
            kw['all_tr_effects'] = True
        return _q(f'estimate:{n}', 'estimate', **kw)


class CTreeKind(Kind):
    name = 'CausalTree'
    flaky = False

    def config(self, sim):
        return dict(max_depth=[2, 3, None][sim.choose(3, 'depth')], min_samples_leaf=[3, 5, 1][sim.choose(3, 'leaf')],
                    max_features=[None, 1, 'sqrt'][sim.choose(3, 'maxf')],
                    honest_subsample_num=[None, 0.4][sim.choose(2, 'honest')], random_state=[2022, 0, 3][sim.choose(3, 'seed')],
                    splitter=['best', 'random'][sim.choose(2, 'splitter')])

    def make(self):
        return em.CausalTree(**self.cfg)

    def world(self, sim, tag=''):
        return World(sim, y='cont', multi_x=sim.flip(15, 'two-treatments'), treat_kinds=['int2', 'int3', 'intoff'], tag=tag)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x))
        r = sim.choose(3, 'roles')
        if r in (0, 1):
            kw['covariate'] = cols(w.v)
        if r in (0, 2):
            kw['adjustment'] = cols(w.w)
        t, c = w.tval(sim, 'treat'), w.tval(sim, 'control')
        if t is not None:
            kw['treat'] = t
        if c is not None:
            kw['control'] = c
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        k = sim.choose(6, 'query')
        if k == 0:
            return _q(f'effect_nji:{n}', 'effect_nji', data=d)
        if k == 1:
            return _q(f'apply:{n}', 'apply', data=d)
        if k == 2:
            return Query('feature_importance', lambda e: e.feature_importance)
        if k == 3:
            return Query(f'decision_path:{n}', lambda e: e.decision_path(data=d).toarray())
        if k == 4:
            return Query('depth', lambda e: (e.get_depth(), e.get_n_leaves()))
        return _q(f'estimate:{n}', 'estimate', data=d)


class GRFKind(Kind):
    name = 'GRForest'
    forest = True
    flaky = False

    def config(self, sim):
        return dict(n_estimators=sim.between(2, 5, 'trees'), max_depth=[3, None, 2][sim.choose(3, 'depth')],
                    min_samples_leaf=[3, 1][sim.choose(2, 'leaf')], max_features=[1.0, 0.5, 1][sim.choose(3, 'maxf')],
                    honest_subsample_num=[None, 0.5][sim.choose(2, 'honest')],
                    sub_sample_num=[None, 0.6, 20][sim.choose(3, 'sub')],
                    n_jobs=[None, 1, 2, 4][sim.choose(4, 'n_jobs')], random_state=[2022, 0, 5][sim.choose(3, 'seed')])

    def make(self):
        return em.GRForest(is_discrete_treatment=False, **self.cfg)

    def world(self, sim, tag=''):
        return World(sim, treat='cont', tag=tag, multi_x=sim.flip(20, 'two-treatments'))

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v))
        if sim.flip(20, 'weights'):
            kw['sample_weight'] = np.linspace(0.5, 1.5, len(w.df))
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        k = sim.choose(4, 'query')
        if k == 0:
            v = w.test[w.v].values.astype(np.float32)
            return Query('apply:test', lambda e: e.apply(v.copy()))
        if k == 1:
            return Query('feature_importances_', lambda e: e.feature_importances_())
        return _q(f'estimate:{n}', 'estimate', data=d)


class CFKind(Kind):
    name = 'CausalForest'
    forest = True

    def config(self, sim):
        disc = not sim.flip(30, 'cont-treat')
        return dict(disc=disc, x=classifier(sim) if disc else regressor(sim), y=regressor(sim),
                    kw=dict(n_estimators=sim.between(2, 4, 'trees'), max_depth=[3, None, 2][sim.choose(3, 'depth')],
                            min_samples_leaf=[3, 1][sim.choose(2, 'leaf')], max_features=[1.0, 0.5][sim.choose(2, 'maxf')],
                            honest_subsample_num=[None, 0.5][sim.choose(2, 'honest')],
                            sub_sample_num=[None, 0.6][sim.choose(2, 'sub')], cf_fold=[1, 2, 3][sim.choose(3, 'folds')],
                            n_jobs=[None, 1, 2, 4][sim.choose(4, 'n_jobs')],
                            random_state=[2022, 0, 5][sim.choose(3, 'seed')]),
                    ct=[0, 0, 0, 1, 2][sim.choose(5, 'cov-transformer')])

    def make(self):
        c = self.fresh_cfg()
        kw = dict(c['kw'])
        if c['ct']:
            kw['covariate_transformer'] = PolynomialFeatures(degree=2, include_bias=False) if c['ct'] == 1 else StandardScaler()
        return em.CausalForest(x_model=c['x'], y_model=c['y'], is_discrete_treatment=c['disc'], **kw)

    def world(self, sim, tag=''):
        return World(sim, treat='disc' if self.cfg['disc'] else 'cont', tag=tag,
                     multi_x=None if self.cfg['disc'] else False)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v))
        if sim.flip(50, 'adj'):
            kw['adjustment'] = cols(w.w)
        if self.cfg['disc']:
            c = w.tval(sim, 'control')
            if c is not None:
                kw['control'] = c
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        k = sim.choose(4, 'query')
        if k == 0:
            v = w.test[w.v].values.astype(np.float32)
            return Query('apply:test', lambda e: e.apply(v.copy()))
        if k == 1:
            return Query('feature_importance', lambda e: e.feature_importance)
        return _q(f'estimate:{n}', 'estimate', data=d)


class IVKind(Kind):
    name = 'NP2SLS'

    def config(self, sim):
        return dict(disc=sim.flip(30, 'disc'), x=WReg(LinearRegression()), y=regressor(sim))

    def make(self):
        c = self.fresh_cfg()
        return em.NP2SLS(x_model=c['x'], y_model=c['y'], is_discrete_treatment=c['disc'])

    def world(self, sim, tag=''):
        return World(sim, treat='disc' if self.cfg['disc'] else 'cont', instrument=True, tag=tag, multi_x=False,
                     treat_kinds=['int2', 'int3'])

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v), instrument=cols(w.z))
        if sim.flip(50, 'adj'):
            kw['adjustment'] = cols(w.w)
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        kw = dict(data=d)
        if sim.flip(50, 'q-treat'):
            kw['treat'] = 2 if not self.cfg['disc'] else 1
            kw['control'] = 0
        if sim.flip(20, 'cf') and d is not None:
            kw['quantity'] = 'CF'
        return _q(f'estimate:{n}', 'estimate', **kw)


class BoundKind(Kind):
    name = 'ApproxBound'

    def config(self, sim):
        return dict(x=classifier(sim), y=regressor(sim))

    def make(self):
        c = self.fresh_cfg()
        return em.ApproxBound(y_model=c['y'], x_model=c['x'])

    def world(self, sim, tag=''):
        return World(sim, multi_x=None, tag=tag)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x))
        if sim.flip(70, 'cov'):
            kw['covariate'] = cols(w.v)
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        kw = dict(data=d)
        t, c = w.tval(sim, 'q-treat'), w.tval(sim, 'q-control')
        if t is not None:
            kw['treat'] = t
        if c is not None:
            kw['control'] = c
        kw['assump'] = [None, 'no-assump', 'non-negative', 'non-positive', 'optimal'][sim.choose(5, 'assump')]
        if sim.flip(30, 'bounds'):
            kw['y_upper'], kw['y_lower'] = 9.0, -9.0
        return _q(f'estimate:{n}', 'estimate', **kw)


class PermKind(Kind):
    name = 'Permuted'

    def config(self, sim):
        which = ['S', 'T', 'X', 'DR', 'tree'][sim.choose(5, 'which')]
        bin_y = which in 'STX' and sim.flip(25, 'bin-outcome')
        return dict(which=which, bin=bin_y, m=classifier(sim) if bin_y else regressor(sim), f=regressor(sim),
                    x=classifier(sim), y=regressor(sim), yx=regressor(sim), fold=[1, 2][sim.choose(2, 'folds')],
                    n_jobs=[None, 1, 2, 3][sim.choose(4, 'n_jobs')])

    def make(self):
        c = self.fresh_cfg()
        w = c['which']
        if w == 'S':
            return em.PermutedSLearner(c['m'], is_discrete_outcome=c['bin'])
        if w == 'T':
            return em.PermutedTLearner(c['m'], is_discrete_outcome=c['bin'])
        if w == 'X':
            return em.PermutedXLearner(c['m'], is_discrete_outcome=c['bin'],
                                       final_proba_model=c['f'] if c['bin'] else None)
        if w == 'DR':
            return em.PermutedDoublyRobust(c['x'], c['y'], c['yx'], cf_fold=c['fold'])
        return PermutedCausalTree(max_depth=3, min_samples_leaf=3)

    def single(self):
        """the plain learner of the same kind"""
        c = self.fresh_cfg()
        w = c['which']
        if w in 'STX':
            cls = {'S': em.SLearner, 'T': em.TLearner, 'X': em.XLearner}[w]
            kw = dict(final_proba_model=c['f']) if w == 'X' and c['bin'] else {}
            return cls(c['m'], is_discrete_outcome=c['bin'], proba_output=c['bin'], **kw)
        if w == 'DR':
            return em.DoublyRobust(c['x'], c['y'], c['yx'], cf_fold=c['fold'])
        return em.CausalTree(max_depth=3, min_samples_leaf=3)

    def world(self, sim, tag=''):
        tree = self.cfg['which'] == 'tree'
        return World(sim, y='bin' if self.cfg['bin'] else 'cont', tag=tag, n=sim.between(30, 60, 'rows'),
                     multi_x=False if tree else None, treat_kinds=['int2', 'int3', 'intoff'] if tree else None)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v))
        if sim.flip(50, 'adj'):
            kw['adjustment'] = cols(w.w)
        if self.cfg['n_jobs'] is not None:
            kw['n_jobs'] = self.cfg['n_jobs']
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        kw = dict(data=d)
        if sim.flip(35, 'nji'):
            c = w.tval(sim, 'q-control')
            if c is not None:
                kw['control'] = c
            j = [None, 1, 2][sim.choose(3, 'q-n_jobs')]
            if j:
                kw['n_jobs'] = j
            return _q(f'effect_nji:{n}', 'effect_nji', **kw)
        t, c = w.tval(sim, 'q-treat'), w.tval(sim, 'q-control')
        if t is not None:
            kw['treat'] = t
        if c is not None:
            kw['control'] = c
        if self.cfg['bin'] and sim.flip(50, 'target'):
            kw['target_outcome'] = sim.choose(2, 'target')
        return _q(f'estimate:{n}', 'estimate', **kw)


class PolicyKind(Kind):
    name = 'PolicyTree'
    flaky = False

    def config(self, sim):
        return dict(max_depth=[2, 3, None][sim.choose(3, 'depth')], min_samples_leaf=[3, 1][sim.choose(2, 'leaf')],
                    random_state=[2022, 0][sim.choose(2, 'seed')], max_features=[None, 1][sim.choose(2, 'maxf')],
                    max_leaf_nodes=[None, 4][sim.choose(2, 'leaves')])

    def make(self):
        return PolicyTree(**self.cfg)

    def world(self, sim, tag=''):
        w = World(sim, tag=tag, multi_x=False)
        rs = sim.nprng('effects')
        k = sim.between(2, 3, 'arms')
        w.eff = rs.normal(size=(len(w.df), k)) + np.sign(w.df[w.v[0]].values)[:, None] * np.arange(k)
        w.effcols = [f'e{i}' for i in range(k)]
        for i, c in enumerate(w.effcols):
            w.df[c] = w.eff[:, i]
        mode = sim.choose(3, 'effect-form')
        w.mode = mode
        if mode == 2:
            ct = PolynomialFeatures(degree=2, include_bias=False) if sim.flip(40, 'cov-transformer') else None
            w.est = em.DoubleML(x_model=LogisticRegression(max_iter=50), y_model=LinearRegression(),
                                is_discrete_treatment=True, covariate_transformer=ct)
            w.est.fit(w.df, 'y', 'x', covariate=list(w.v), adjustment=list(w.w))
        return w

    def spec(self, sim, w):
        kw = dict(data=w.df, covariate=list(w.v))
        if w.mode == 0:
            kw['effect_array'] = w.eff.copy()
        elif w.mode == 1:
            kw['effect'] = list(w.effcols)
        else:
            kw['est_model'] = w.est
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        k = sim.choose(6, 'query')
        if k == 0:
            return _q(f'predict_opt_effect:{n}', 'predict_opt_effect', data=d)
        if k == 1:
            return _q(f'apply:{n}', 'apply', data=d)
        if k == 2:
            return Query('feature_importance', lambda e: e.feature_importance)
        if k == 3:
            return Query(f'decision_path:{n}', lambda e: e.decision_path(data=d).toarray())
        if k == 4:
            return Query('depth', lambda e: (e.get_depth(), e.get_n_leaves()))
        return _q(f'predict_ind:{n}', 'predict_ind', data=d)


class PIKind(PolicyKind):
    name = 'PolicyInterpreter'

    def make(self):
        return PolicyInterpreter(**self.cfg)

    def world(self, sim, tag=''):
        w = World(sim, tag=tag, multi_x=False)
        ct = PolynomialFeatures(degree=2, include_bias=False) if sim.flip(30, 'cov-transformer') else None
        w.est = em.DoubleML(x_model=LogisticRegression(max_iter=50), y_model=LinearRegression(),
                            is_discrete_treatment=True, covariate_transformer=ct)
        w.est.fit(w.df, 'y', 'x', covariate=list(w.v), adjustment=list(w.w))
        w.names = [f'arm{i}' for i in range(len(w.treat_values['x']))] if sim.flip(50, 'names') else None
        return w

    def spec(self, sim, w):
        kw = dict(data=w.df, est_model=w.est)
        if w.names:
            kw['treatment_names'] = list(w.names)
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = [('test', w.test), ('train', w.df)][sim.choose(2, 'query-data')]
        k = sim.choose(3, 'query')
        if k == 0:
            return _q(f'decide:{n}', 'decide', data=d)
        if k == 1:
            return _q(f'predict:{n}', 'predict', data=d)
        if sim.flip(30, 'interpret-train'):
            n, d = 'none', None
        return _q(f'interpret:{n}', 'interpret', data=d)


class CEKind(Kind):
    name = 'CEInterpreter'
    flaky = False

    def config(self, sim):
        return dict(max_depth=[2, 3][sim.choose(2, 'depth')], min_samples_leaf=[3, 1][sim.choose(2, 'leaf')], random_state=3)

    def make(self):
        return CEInterpreter(**self.cfg)

    world = PIKind.world

    def spec(self, sim, w):
        return Spec(w, dict(data=w.df, est_model=w.est))

    def query(self, sim, w):
        n, d = [('none', None), ('test', w.test), ('train', w.df)][sim.choose(3, 'query-data')]
        if sim.flip(40, 'predict') and d is not None:
            v = d[w.v].values
            return Query(f'predict:{n}', lambda e: e.predict(v.copy()))
        return _q(f'interpret:{n}', 'interpret', data=d)


class UpliftKind(Kind):
    name = 'UpliftModel'
    flaky = False

    def make(self):
        return UpliftModel()

    def world(self, sim, tag=''):
        w = World(sim, tag=tag, multi_x=False, treat_kinds=['int2', 'str2'], y='bin' if sim.flip(50, 'y') else 'cont')
        rs = sim.nprng('uplift')
        df = pd.DataFrame({'y': w.df['y'].values, 'x': w.df['x'].values, 'm1': rs.normal(size=len(w.df)),
                           'm2': rs.normal(size=len(w.df))})
        if sim.flip(40, 'true-effect'):
            df['te'] = rs.normal(size=len(w.df))
        w.lift = df
        w.te = 'te' in df
        return w

    def spec(self, sim, w):
        c, t = w.treat_values['x'][:2]
        kw = dict(df_lift=w.lift, treat=t, control=c, random=['RANDOM', None][sim.choose(2, 'benchmark')])
        if w.te and sim.flip(70, 'use-te'):
            kw['true_effect'] = 'te'
        return SeededSpec(w, kw, sim.choose(1000, 'benchmark-seed'))

    def query(self, sim, w):
        k = sim.choose(7, 'query')
        nm = [None, 'm1'][sim.choose(2, 'name')]
        if k == 0:
            return _q('get_cumlift', 'get_cumlift')
        if k == 1:
            return _q('get_gain', 'get_gain', normalize=bool(sim.choose(2, 'norm')))
        if k == 2:
            return _q('get_qini', 'get_qini', normalize=bool(sim.choose(2, 'norm')))
        return _q(['gain_top_point', 'qini_top_point', 'auuc_score', 'qini_score'][k - 3],
                  ['gain_top_point', 'qini_top_point', 'auuc_score', 'qini_score'][k - 3], name=nm)


class RLossKind(Kind):
    name = 'RLoss'

    def config(self, sim):
        disc = not sim.flip(50, 'cont')
        return dict(disc=disc, x=classifier(sim) if disc else regressor(sim), y=regressor(sim), fold=[1, 2][sim.choose(2, 'folds')])

    def make(self):
        c = self.fresh_cfg()
        return RLoss(x_model=c['x'], y_model=c['y'], cf_fold=c['fold'], is_discrete_treatment=c['disc'])

    def world(self, sim, tag=''):
        w = World(sim, treat='disc' if self.cfg['disc'] else 'cont', tag=tag, multi_x=False, treat_kinds=['int2', 'str2'])
        w.est = em.DoubleML(x_model=LogisticRegression(max_iter=50) if self.cfg['disc'] else LinearRegression(),
                            y_model=LinearRegression(), is_discrete_treatment=self.cfg['disc'])
        w.est.fit(w.df, 'y', 'x', covariate=list(w.v), adjustment=list(w.w))
        return w

    def spec(self, sim, w):
        return Spec(w, dict(data=w.df, outcome='y', treatment='x', covariate=cols(w.v), adjustment=cols(w.w)))

    def query(self, sim, w):
        kw = {}
        if self.cfg['disc'] and sim.flip(50, 'q-treat'):
            kw['treat'] = w.treat_values['x'][1]
            kw['control'] = w.treat_values['x'][0]
        return Query('score', lambda e: e.score(w.est, **kw))


class CTForestKind(Kind):
    name = 'CTCausalForest'
    forest = True
    flaky = False

    def config(self, sim):
        return dict(n_estimators=sim.between(2, 4, 'trees'), max_depth=[3, 2][sim.choose(2, 'depth')],
                    min_samples_leaf=3, n_jobs=[None, 2][sim.choose(2, 'n_jobs')], max_features=[1.0, 0.5][sim.choose(2, 'maxf')],
                    honest_subsample_num=[None, 0.4][sim.choose(2, 'honest')], random_state=[2022, 0][sim.choose(2, 'seed')])

    def make(self):
        return CTCausalForest(**self.cfg)

    def world(self, sim, tag=''):
        return World(sim, multi_x=False, treat_kinds=['int2', 'int3'], tag=tag)

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), covariate=cols(w.v))
        if sim.flip(50, 'adj'):
            kw['adjustment'] = cols(w.w)
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        return _q(f'estimate:{n}', 'estimate', data=d)


deepiv.print = lambda *a, **k: None           # the training progress


def _numpy(v):
    return v.detach().numpy().copy() if isinstance(v, torch.Tensor) else v


class IVNetKind(Kind):
    name = 'DeepIV'
    flaky = False

    def config(self, sim):
        c = dict(disc=sim.flip(50, 'disc'), wrap=sim.flip(50, 'wrapper'), hid=[[8, 8, 8], [6, 5, 4]][sim.choose(2, 'hidden')],
                 seed=[2022, 0, 5][sim.choose(3, 'seed')], k=2 + sim.flip(40, 'three values'))
        if sim.flip(30, 'own outcome net'):
            torch.manual_seed(7)
            c['net'] = deepiv.Net(c['k'] if c['disc'] else 1, 2, 1, 8, 8, 8, is_discrete_input=c['disc'])
        return c

    def make(self):
        c = self.fresh_cfg()
        return (DeepIVWrapper if c['wrap'] else em.DeepIV)(
            y_net=c.get('net'), x_hidden_d=c['hid'], y_hidden_d=c['hid'], num_gaussian=2, is_discrete_treatment=c['disc'], random_state=c['seed'])

    def world(self, sim, tag=''):
        w = World(sim, treat='disc' if self.cfg['disc'] else 'cont', instrument=True, tag=tag, multi_x=False,
                  treat_kinds=['int3' if self.cfg['k'] == 3 else 'int2'])
        w.w = w.w[:2]
        if not self.cfg['wrap']:
            for d in ('df', 'test'):
                t = getattr(w, d)
                setattr(w, d, t.astype({c: 'float32' for c in t.columns if t[c].dtype == np.float64}))
        return w

    def spec(self, sim, w):
        kw = dict(data=w.df, outcome=cols(w.y), treatment=cols(w.x), instrument=cols(w.z), adjustment=cols(w.w), device='cpu',
                  epoch=sim.between(1, 2, 'epochs'), lr=0.02, batch_size=[64, 16][sim.choose(2, 'batch')])
        if not self.cfg['disc']:
            kw['sample_n'] = 1
        if sim.flip(30, 'Adam'):
            kw['optimizer'] = 'Adam'
        return Spec(w, kw)

    def query(self, sim, w):
        n, d = _data_arg(sim, w)
        if sim.flip(25, 'nji') and (d is None or not self.cfg['wrap']):
            q = Query(f'effect_nji:{n}', lambda e: _numpy(e.effect_nji(d)), data=d)
            q.f = 'effect_nji'
            return q
        kw = dict(data=d)
        if sim.flip(60, 'q-treat'):
            kw['treat'] = sim.pick([1, 0, 2][:2 + (self.cfg['k'] == 3)], 'treat') if self.cfg['disc'] else sim.pick([0.5, 2.0], 'treat')
            kw['control'] = sim.pick([0, 1], 'control')
        kw['quantity'] = sim.pick(['CATE', 'ATE', None], 'quantity')
        q = Query(f'estimate:{n},{kw.get("treat")},{kw.get("control")},{kw["quantity"]}', lambda e: _numpy(e.estimate(**kw)), **kw)
        q.f = 'estimate'
        return q


ESTIMATORS = [SKind, TKind, XKind, DMLKind, DRKind, CTreeKind, GRFKind, CFKind, IVKind, BoundKind, PermKind, RLossKind, IVNetKind]
OTHERS = [PolicyKind, PIKind, CEKind, UpliftKind]
ALL = ESTIMATORS + OTHERS
WEIGHTS = {'SLearner': 3, 'TLearner': 3, 'XLearner': 3, 'DoubleML': 5, 'DoublyRobust': 4, 'CausalTree': 2, 'GRForest': 3,
           'CausalForest': 4, 'NP2SLS': 2, 'ApproxBound': 2, 'Permuted': 3, 'RLoss': 1, 'DeepIV': 2, 'PolicyTree': 2,
           'PolicyInterpreter': 2, 'CEInterpreter': 1, 'UpliftModel': 2}


def pick_kind(sim, kinds=None):
    kinds = kinds or ALL
    only = os.environ.get('DST_ONLY_KIND')          # for development
    if only:
        kinds = [k for k in kinds if k.name in only.split(',')] or kinds
    return kinds[sim.weighted([WEIGHTS.get(k.name, 1) for k in kinds], 'kind')](sim)


def scramble(sim, *frames):
    """other values in the same frame objects: each column is given to the rows in another order"""
    rs = sim.nprng('scramble%d' % sim.choose(1 << 30, 'scramble'))
    for df in frames:
        for c in df.columns:
            df[c] = df[c].values[rs.permutation(len(df))]


def fitted(kind, spec):
    """a fresh object fitted by spec, or None when that fit raises"""
    e = kind.make()
    o = attempt(lambda: (spec.call(e), None)[1])
    return e if o.ok else None
