"""Run in a new process: a seeded component is used before and after other parts of ylearn are first imported or used."""
import importlib
import json
import sys
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter('ignore')


def data(k):
    rs = np.random.RandomState(k)
    n = 40
    d = pd.DataFrame(dict(v=rs.normal(size=n), w=rs.normal(size=n), z=rs.normal(size=n), x=np.arange(n) % 2))
    d['y'] = d.v + d.x * (1 + d.w) + rs.normal(size=n)
    d['c'] = np.where(d.w > 0, 'p', 'q')
    return d


def network(k):
    from ylearn.bayesian import SviBayesianNetwork
    bn = SviBayesianNetwork({'c': [], 'v': ['c'], 'y': ['v', 'c']})
    d = data(k)[['c', 'v', 'y']]
    bn.fit(d, random_state=k, epochs=4, verbose=False)
    return bn.predict(d.head(4), outcome='y', random_state=k).to_numpy().ravel()


def deepiv(k):
    from ylearn.estimator_model import deepiv as m
    m.print = lambda *a, **kw: None
    from ylearn.estimator_model._factory import DeepIVWrapper
    e = DeepIVWrapper(x_hidden_d=[8, 8, 8], y_hidden_d=[8, 8, 8], num_gaussian=2, is_discrete_treatment=True, random_state=k)
    e.fit(data(k), 'y', 'x', instrument='z', adjustment='w', device='cpu', epoch=2, lr=0.02)
    return e.estimate(data(k), quantity=None).ravel()


def forest(k):
    from ylearn.estimator_model import GRForest
    e = GRForest(n_estimators=4, sub_sample_num=0.6, n_jobs=1, random_state=k)
    e.fit(data(k), 'y', 'x', covariate=['v', 'w'])
    return np.ravel(e.estimate(data(k)))


def tree(k):
    from ylearn.estimator_model import CausalTree
    e = CausalTree(max_depth=3, max_features=1, random_state=k)
    e.fit(data(k), 'y', 'x', covariate=['v', 'w'])
    return np.ravel(e.estimate(data(k)))


COMPONENTS = dict(network=network, deepiv=deepiv, forest=forest, tree=tree)


def main():
    import torch
    torch.set_num_threads(1)
    out = []
    for what, arg in json.loads(sys.argv[1]):
        try:
            if what == 'import':
                importlib.import_module(arg)
                r = None
            else:
                r = [float(v).hex() for v in COMPONENTS[what](arg)]
        except Exception as e:
            r = f'{type(e).__name__}: {e}'
        out.append(r)
    print('OUT ' + json.dumps(out))


if __name__ == '__main__':
    main()
