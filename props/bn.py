"""Bayesian-network worlds and operations, shared by C03, C08, C10, C11"""
import copy

import numpy as np
import pandas as pd
import networkx as nx
import pyro
import torch

from ylearn.bayesian import SviBayesianNetwork, DAG
from dst.core import attempt

torch.set_num_threads(1)

GRAPHS = [
    [('a', 'b')],
    [('a', 'b'), ('b', 'c')],
    [('a', 'c'), ('b', 'c')],
    [('a', 'b'), ('a', 'c'), ('b', 'c')],
    [('a', 'c'), ('b', 'c'), ('c', 'd')],
    [('a', 'b'), ('b', 'c'), ('a', 'd'), ('c', 'd'), ('d', 'e')],
]
NAMES = [list('abcde'), list('edcba'), ['u', 'treat', 'y', 'z', 'q']]


class BNWorld:
    def __init__(self, sim, tag=''):
        names = sim.pick(NAMES, 'bn-names')
        es = [(names['abcde'.index(s)], names['abcde'.index(d)]) for s, d in sim.pick(GRAPHS, 'bn-graph')]
        self.edges = es
        g = nx.DiGraph(es)
        self.nodes = list(nx.topological_sort(g))
        self.kinds = {v: ['num', 'cat2', 'cat3', 'str'][sim.choose(4, 'node-kind')] for v in self.nodes}
        self.form = sim.choose(3, 'graph-form')
        self.frames = [self.frame(sim, g, f'{tag}{i}') for i in range(2)]

    def frame(self, sim, g, tag):
        n = sim.between(12, 30, 'rows')
        rs = sim.nprng('data' + tag)
        d, lat = {}, {}
        for v in self.nodes:
            z = sum(lat[p] for p in g.predecessors(v)) * 0.7 + rs.normal(size=n)
            k = self.kinds[v]
            if k == 'num':
                d[v], lat[v] = z * (1 + len(d)) + len(d), z
            else:
                m = 2 if k == 'cat2' else 3
                i = np.digitize(z, np.quantile(z, np.linspace(0, 1, m + 1)[1:-1]))
                i[:m] = np.arange(m)
                lat[v] = i - 1.0
                d[v] = i if k != 'str' else np.array(['hi', 'lo', 'mid'], dtype=object)[i]
        df = pd.DataFrame(d)
        if sim.flip(30, 'odd-index'):
            df.index = rs.permutation(n) + 50
        return df

    def graph(self):
        if self.form == 0:
            return DAG(list(self.edges))
        if self.form == 1:
            return nx.DiGraph(self.edges)
        m = pd.DataFrame(0, index=self.nodes, columns=self.nodes)
        for s, d in self.edges:
            m.loc[s, d] = 1
        return m

    def net(self):
        return SviBayesianNetwork(self.graph())

    def value(self, sim, node):
        vals = self.frames[0][node]
        return vals.iloc[sim.choose(len(vals), 'value')]


class Op:
    """one operation on a network: reproducible, with its own arguments"""

    def __init__(self, name, kw, base=None, changes=False):
        self.name, self.kw, self.changes, self.g = name, kw, changes, base

    def seed_process(self):
        if self.kw.get('random_state') is None:      # drawn from the process-wide generators: put them in a known state
            pyro.set_rng_seed(self.g)

    def args(self):
        return {k: v if isinstance(v, pd.DataFrame) else copy.deepcopy(v) for k, v in self.kw.items()}

    def raw(self, net, args=None):
        if self.name == 'fitted_params':
            return {k: v.detach().numpy().copy() for k, v in net.fitted_params.items()}
        return getattr(net, self.name)(**(self.args() if args is None else args))

    def __call__(self, net, args=None):
        self.seed_process()
        if self.changes:
            return attempt(lambda: (self.raw(net, args), None)[1])
        return attempt(lambda: self.raw(net, args))

    def __repr__(self):
        return f"{self.name}({', '.join(f'{k}=df{len(v)}' if isinstance(v, pd.DataFrame) else f'{k}={v!r}' for k, v in self.kw.items())})"


def _rs(sim):
    return [3, 0, 11, None][sim.choose(4, 'random_state')]


def fit_op(sim, w, inplace=True):
    return Op('fit', dict(data=sim.pick(w.frames, 'frame'), epochs=sim.between(1, 3, 'epochs'), lr=[0.05, 0.3][sim.choose(2, 'lr')],
                          random_state=_rs(sim), inplace=inplace), sim.choose(99999, 'process-seed'), True)


def do_op(sim, w, inplace=True):
    nodes = sim.shuffled(w.nodes, 'do-nodes')[:1 + sim.flip(25, 'two-nodes')]
    if len(nodes) == len(w.nodes):
        nodes = nodes[:1]
    kw = dict(intervention={n: w.value(sim, n) for n in nodes}, epochs=sim.between(1, 2, 'epochs'), lr=0.1, verbose=0,
              inplace=inplace, random_state=_rs(sim))
    if sim.flip(50, 'do-data'):
        kw['data'] = sim.pick(w.frames, 'frame')
    elif sim.flip(50, 'do-n'):
        kw['n_samples'] = 7
    return Op('do', kw, sim.choose(99999, 'process-seed'), True)


def query_op(sim, w):
    k = sim.choose(4, 'query')
    df = sim.pick(w.frames, 'frame').iloc[:sim.between(2, 8, 'qrows')]
    g = sim.choose(99999, 'process-seed')
    if k == 0:
        kw = dict(random_state=_rs(sim))
        if sim.flip(60, 'sample-data'):
            kw['data'] = df[w.nodes[:sim.between(1, len(w.nodes), 'given')]]
        else:
            kw['n_samples'] = 5
        if sim.flip(30, 'sample-nodes'):
            kw['nodes'] = [sim.pick(w.nodes, 'node')]
        return Op('sample', kw, g)
    if k == 1:
        o = sim.pick(w.nodes, 'outcome')
        return Op('predict', dict(data=df, outcome=[o] if sim.flip(30, 'as-list') else o, num_samples=2, proba=sim.flip(50, 'proba'),
                                  random_state=_rs(sim)), g)
    if k == 2:
        o = sim.shuffled(w.nodes, 'outcome-treatment')[:2]
        t, y = sorted(o, key=w.nodes.index)
        kw = dict(data=df, treatment=t, outcome=y, num_samples=2, random_state=_rs(sim))
        if sim.flip(50, 'treat'):
            kw['treat'] = w.value(sim, t)
        if sim.flip(50, 'control'):
            kw['control'] = w.value(sim, t)
        return Op('estimate', kw, g)
    return Op('fitted_params', {}, g)


def store_snap():
    s = pyro.get_param_store().get_state()
    return tuple(sorted((k, v.detach().numpy().tobytes(), tuple(v.shape), bool(v.requires_grad)) for k, v in s['params'].items())), \
        tuple(sorted((k, repr(c)) for k, c in s['constraints'].items()))
