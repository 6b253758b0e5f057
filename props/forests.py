"""forests: what C01 and C16 share"""
import numpy as np
import pandas as pd

import ylearn.estimator_model as em
from dst.simjoblib import JobSim
from . import worlds as W

N_JOBS = [None, 1, 2, 3, 4, 8, -1]


def forest_of(obj):
    return obj.yx_model if isinstance(obj, em.CausalForest) else obj


def probes(w):
    """the observations of the statements: new rows, training rows, and the rows kept from fit"""
    v = w.test[w.v].values.astype(np.float32)
    tv = w.df[w.v].values.astype(np.float32)
    return [W._q('estimate:test', 'estimate', data=w.test), W._q('estimate:none', 'estimate', data=None),
            W.Query('feature_importance', lambda e: e.feature_importance),
            W.Query('feature_importances_', lambda e: forest_of(e).feature_importances_()),
            W.Query('apply:test', lambda e: e.apply(v.copy())), W.Query('apply:train', lambda e: e.apply(tv.copy()))]


class GRF(W.GRFKind):
    def config(self, sim):
        c = super().config(sim)
        c['n_estimators'] = sim.between(2, 7, 'trees')
        c['sub_sample_num'] = [None, 0.6, 20, 0.33, 13][sim.choose(5, 'sub')]
        c['honest_subsample_num'] = [None, 0.5, 0.3][sim.choose(3, 'honest')]
        c['max_leaf_nodes'] = [None, 6][sim.choose(2, 'leaves')]
        c['random_state'] = [2022, 0, 5, 99991][sim.choose(4, 'seed')]
        return c

    @property
    def opts(self):
        return self.cfg


class CF(W.CFKind):
    def config(self, sim):
        c = super().config(sim)
        k = c['kw']
        k['n_estimators'] = sim.between(2, 6, 'trees')
        k['sub_sample_num'] = [None, 0.6, 20][sim.choose(3, 'sub')]
        k['random_state'] = [2022, 0, 5, 99991][sim.choose(4, 'seed')]
        return c

    @property
    def opts(self):
        return self.cfg['kw']


def schedule(sim, **kw):
    return JobSim(sim, mode=['interleave', 'order'][sim.choose(2, 'mode')], **kw)


def requested(opts, n):
    """(rows per tree, rows a tree is grown on) as documented"""
    s = opts['sub_sample_num']
    sub = round(n * 0.85) if s is None else s if isinstance(s, int) else round(n * s)
    h = opts['honest_subsample_num']
    hon = 0 if h is None else h if isinstance(h, int) else round(h * sub)
    return sub, sub - hon
