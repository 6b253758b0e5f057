"""C03: a seeded component repeats exactly whatever the process did before."""
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
import pandas as pd
import pyro
import torch
from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor
from sklearn.linear_model import LinearRegression, LogisticRegression

import ylearn.estimator_model as em
from ylearn import Why
from ylearn.causal_model import CausalGraph, CausalModel
from ylearn.estimator_model._factory import ESTIMATOR_FACTORIES
from ylearn.exp_dataset import exp_data, gen
from ylearn.policy.policy_model import PolicyTree
from ylearn.uplift import UpliftModel


from dst import peers
from dst.core import Sim, Skip, Violation, attempt, canon, fp, outcome_same
from props import bn as B, c03_fresh, c13, c15, worlds as W

torch.set_num_threads(1)
warnings.simplefilter('ignore')


RULE = ('One run: a seeded component is constructed, fitted and queried with chosen arguments; the same calls are made again in a process '
        'whose random generators are reseeded, advanced and used by other work (also other fits of the same kind) before and between the '
        'calls, and in a process with another string hash seed; every answer must be the same.')
REAL = ['estimators, factories, trees, forests, interpreters, uplift, discovery, Bayesian networks, Why', 'numpy, torch, pyro and scikit-learn']
STUB = []
ASSUMPTIONS = ['BLAS and torch use one thread, so results are comparable bit for bit (a relative tolerance of 1e-9 is allowed)',
               'the generators are not advanced by another thread during a seeded call',
               'PgmProxy is not compared across string hash seeds: pgmpy itself follows set order']
QUICK_S = 50
RUN_TIMEOUT = 240
HASHSEEDS = [1, 77]


# ---- what the process does besides ------------------------------------------------------------
def _advance(r):
    np.random.rand(1 + r.randrange(9))
    random.random()
    torch.rand(1 + r.randrange(9))


def _reseed(r):
    np.random.seed(r.randrange(2 ** 31))
    random.seed(r.randrange(2 ** 31))
    torch.manual_seed(r.randrange(2 ** 31))


def _same_seed(r):
    s = [0, 3, 7, 2022][r.randrange(4)]
    np.random.seed(s)
    torch.manual_seed(s)
    random.seed(s)


def _table(r, n=24):
    g = np.random.RandomState(r.randrange(2 ** 31))
    return pd.DataFrame(dict(v1=g.normal(size=n), v2=g.normal(size=n), w1=g.normal(size=n), w2=g.normal(size=n), x=np.arange(n) % 2,
                             y=g.normal(size=n)))


def _other_forest(r):
    em.GRForest(n_estimators=2, sub_sample_num=0.5, n_jobs=1).fit(_table(r), 'y', 'x', covariate=['v1', 'v2'])


def _other_learner(r):
    em.SLearner(RandomForestRegressor(n_estimators=2)).fit(_table(r), 'y', 'x', covariate=['v1', 'v2'])


def _other_graph(r):
    CausalModel(CausalGraph({'y': ['x', 'w'], 'x': ['w']})).identify('x', 'y')


def _other_tree(r):
    t = _table(r)
    PolicyTree(random_state=r.randrange(9)).fit(t, covariate=['v1', 'v2'], effect=['w1', 'w2'])


def _pyro(r):
    pyro.set_rng_seed(r.randrange(2 ** 31))
    pyro.clear_param_store()


def _draws(r):
    _table(r).sample(frac=0.5)
    np.random.permutation(7)
    torch.nn.Linear(3, 2)


NOISE = [('reseeded', _reseed), ('advanced', _advance), ('put in a common state', _same_seed), ('used by an unseeded forest', _other_forest),
         ('used by an unseeded learner', _other_learner), ('used by a graph', _other_graph), ('used by a policy tree', _other_tree),
         ('pyro reset', _pyro), ('drawn from', _draws)]


class Calm:
    def __init__(self):
        self.done = []
        _reseed(random.Random(1))

    def __call__(self):
        pass


class Noise:
    """what happens before and between the calls; a function of its seed"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.done = []
        _reseed(self.r)

    def __call__(self):
        for _ in range(1 + self.r.randrange(2)):
            k = self.r.choices(range(len(NOISE)), weights=[6, 5, 3, 1, 1, 1, 1, 1, 2])[0]
            self.done.append(NOISE[k][0])
            attempt(NOISE[k][1], self.r)
            _reseed(self.r)


# ---- the components: a function of the choices, calling between() before each step --------------
def _plain(v):
    if isinstance(v, torch.Tensor):
        return v.detach().numpy().copy()
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v


class Steps(list):
    def __init__(self, between, name):
        super().__init__()
        self.between, self.name = between, name

    def do(self, label, fn, *a, **k):
        self.between()
        o = attempt(lambda: _plain(fn(*a, **k)))
        self.append((label, o))
        return o


def worlds(s, between):
    kind = W.pick_kind(s)
    w = kind.world(s)
    spec = kind.spec(s, w)
    qs = kind.queries(s, w, 1 + s.choose(3, 'queries'))
    st = Steps(between, kind.name)
    if isinstance(spec, W.SeededSpec) or any('qini_score' in q.name for q in qs):
        raise Skip('draws from the process-wide generator by definition')
    made = st.do('constructor', lambda: setattr(st, 'e', kind.make()))
    if not made.ok:
        return st
    if st.do('fit', lambda: (spec.call(st.e), None)[1]).ok:
        for q in qs:
            st.do(q.name, q.fn, st.e)
        if s.flip(30, 'fit-again'):
            if st.do('second fit', lambda: (spec.call(st.e), None)[1]).ok:
                for q in qs:
                    st.do(q.name + ' after the second fit', q.fn, st.e)
    return st





def factory(s, between):
    """estimators the way Why builds them, with their default nuisance models (random forests, boosting, trees)"""
    tag = s.pick(['dml', 'dr', 'slearner', 'tlearner', 'xlearner', 'ml', 'tree', 'grf', 'bound', 'iv', 'div', 'rloss'], 'factory')
    n = s.between(24, 40, 'rows')
    rs = s.nprng('data')
    k = 2 + (tag not in ('bound', 'rloss', 'div') and s.flip(40, 'three values'))
    cont = tag in ('dml', 'iv', 'grf', 'rloss') and s.flip(30, 'continuous treatment')
    d = pd.DataFrame(dict(v1=rs.normal(size=n), v2=rs.normal(size=n), w1=rs.normal(size=n), z=rs.normal(size=n)))
    x = (np.arange(n) + (d.z > 0)) % k
    d['x'] = rs.normal(size=n) + d.z if cont else np.asarray(x).astype(int)
    disc_y = tag in ('dml', 'slearner', 'tlearner', 'xlearner', 'ml') and s.flip(30, 'discrete outcome')
    y = d.v1 + d.x * (1 + d.v2) + rs.normal(size=n)
    d['y'] = (y > y.median()).astype(int) if disc_y else y
    if tag == 'div':
        if s.flip(50, 'continuous treatment'):
            d['x'] = rs.normal(size=n) + d.z
            cont = True
    opts = {}
    pick = lambda: s.pick(['rf', 'gb', 'lr', 'dt'], 'nuisance')
    if tag in ('dml', 'dr', 'rloss'):
        opts = dict(y_model=pick(), x_model=pick(), cf_fold=s.pick([1, 2], 'folds'))
        if tag != 'rloss':
            opts['yx_model'] = pick()
    elif tag in ('slearner', 'tlearner', 'xlearner', 'ml'):
        opts = dict(model=pick())
        if tag == 'ml':
            opts['learner'] = s.pick(['s', 't', 'x'], 'learner')
    elif tag == 'tree':
        opts = dict(max_depth=3, max_features=1, splitter=s.pick(['best', 'random'], 'splitter'))
    elif tag == 'grf':
        opts = dict(n_estimators=4, sub_sample_num=0.6, max_features=1, n_jobs=s.pick([1, 2], 'jobs'))
    elif tag in ('bound', 'iv'):
        opts = dict(y_model=pick(), x_model=pick())
    elif tag == 'div':
        opts = dict(x_hidden_d=[8, 8, 8], y_hidden_d=[8, 8, 8], num_gaussian=2) if s.flip(80, 'small') else {}
    seed = s.pick([0, 7, 2022], 'random_state')
    st = Steps(between, tag)
    y_task = 'binary' if disc_y else 'regression'
    x_task = 'regression' if cont else 'binary' if k == 2 else 'multiclass'

    def make():
        st.e = ESTIMATOR_FACTORIES[tag](**opts)(d, 'y', 'x', y_task, x_task, covariate=['v1', 'v2'], adjustment=['w1'], instrument=['z'],
                                               random_state=seed)
    if not st.do('constructor', make).ok:
        return st
    kw = dict(covariate=['v1', 'v2'])
    if tag in ('iv', 'div'):
        kw = dict(instrument=['z'], covariate=['v1', 'v2'])
        if tag == 'div':
            kw = dict(instrument=['z'], adjustment=['w1'])
    elif tag not in ('bound', 'rloss') or s.flip(40, 'adjustment'):
        kw['adjustment'] = ['w1']
    if tag == 'div':
        kw.update(epoch=2, device='cpu', lr=0.02, **({} if 'int' in str(d.x.dtype) else {'sample_n': 1}))
    test = d.iloc[:6].copy()
    if not st.do('fit', lambda: (st.e.fit(d.copy(), 'y', 'x', **kw), None)[1]).ok:
        return st
    q = {}
    if not cont and tag not in ('rloss', 'grf', 'div') and s.flip(50, 'treat'):
        q = dict(treat=k - 1, control=0)
    for _ in range(1 + s.choose(2, 'queries')):
        if tag == 'rloss':
            g = em.SLearner(LinearRegression())
            g.fit(d, 'y', 'x', covariate=['v1', 'v2'])
            st.do('score', lambda: st.e.score(g))
        else:
            data = [None, test, d][s.choose(3, 'data')]
            st.do('estimate', lambda: st.e.estimate(data if data is None else data.copy(), **q))
    return st


def unseeded_models(s, between):
    """double machine learning seeds the nuisance models it is given"""
    n = s.between(40, 80, 'rows')
    rs = s.nprng('data')
    d = pd.DataFrame(dict(v1=rs.normal(size=n), w1=rs.normal(size=n)))
    d['x'] = (rs.normal(size=n) + d.w1 > 0).astype(int)
    d['y'] = d.v1 + d.x * (1 + d.v1) + rs.normal(size=n)
    seed = s.pick([0, 7, 2022], 'random_state')
    rf = dict(n_estimators=4, max_depth=4)
    cf = s.pick([1, 2, 3], 'folds')
    which = s.choose(2, 'estimator')
    st = Steps(between, ['DoubleML', 'CausalForest'][which])

    def make():
        kw = dict(x_model=RandomForestClassifier(**rf), y_model=RandomForestRegressor(**rf), cf_fold=cf, random_state=seed,
                  is_discrete_treatment=True)
        st.e = em.DoubleML(yx_model=LinearRegression(), **kw) if which == 0 else em.CausalForest(n_estimators=3, n_jobs=1, **kw)
    if st.do('constructor', make).ok and st.do('fit', lambda: (st.e.fit(d.copy(), 'y', 'x', covariate=['v1'], adjustment=['w1']), None)[1]).ok:
        for _ in range(1 + s.choose(2, 'queries')):
            st.do('estimate', lambda: st.e.estimate(d.head(5).copy()))
    return st


def uplift(s, between):
    n = s.between(12, 40, 'rows')
    rs = s.nprng('data')
    d = pd.DataFrame(dict(a=rs.normal(size=n), b=np.round(rs.normal(size=n)), x=np.arange(n) % 2, y=rs.rand(n).round(s.choose(3, 'digits'))))
    if s.flip(30, 'true effect'):
        d['te'] = rs.rand(n)
    names = ['a', 'b']
    um = UpliftModel()
    st = Steps(between, 'UpliftModel')
    rand = s.pick(['RANDOM', None, 'R0'], 'random name')
    if not st.do('fit', lambda: (um.fit(d.copy(), outcome='y', treatment='x', random=rand, **({'true_effect': 'te'} if 'te' in d else {})), None)[1]).ok:
        return st

    def mine(v):
        return v[names] if isinstance(v, pd.DataFrame) else {k: v[k] for k in names}
    for _ in range(1 + s.choose(4, 'queries')):
        k = s.choose(6, 'query')
        if k == 0:
            st.do('cumlift', lambda: mine(um.get_cumlift()))
        elif k == 1:
            st.do('gain', lambda: mine(um.get_gain(normalize=False)))
        elif k == 2:
            st.do('qini', lambda: mine(um.get_qini()))
        elif k == 3:
            st.do('gain top point', lambda: um.gain_top_point('a'))
        elif k == 4:
            st.do('qini top point', lambda: um.qini_top_point('b'))
        else:
            st.do('auuc', lambda: um.auuc_score('a'))
    return st


def discovery(s, between):
    kind = s.pick([k for k, w in c15.KINDS for _ in range(w)], 'discoverer')
    init, kw = kind.init(s), kind.call(s)
    d = s.between(2, 4, 'columns')
    if kind.name == 'notears' and s.flip(50, 'threshold'):
        kw['threshold'] = 0.01
    z = c15.make_data(s, kind, d, kw, '')
    df = pd.DataFrame(z, columns=list('abcd')[:d])
    if kind.name == 'pgm-hc':
        kw.pop('threshold', None)
    seed = s.pick([0, 5, 2022], 'random_state')
    st = Steps(between, kind.name)
    if not st.do('constructor', lambda: setattr(st, 'e', init(seed))).ok:
        return st
    for i in range(1 + s.flip(40, 'twice')):
        st.do('call' if not i else 'second call', lambda: st.e(df.copy(), **kw))
    return st


def network(s, between):
    w = B.BNWorld(s)
    st = Steps(between, 'SviBayesianNetwork')

    def seeded(op):
        if 'random_state' in op.kw and op.kw['random_state'] is None:
            op.kw['random_state'] = 0
        return op
    fit = seeded(B.fit_op(s, w))
    later = []
    for _ in range(1 + s.choose(3, 'queries')):
        later.append(seeded(B.do_op(s, w)) if s.flip(15, 'do') else seeded(B.query_op(s, w)))
    if not st.do('constructor', lambda: setattr(st, 'e', w.net())).ok:
        return st
    if st.do('fit', lambda: (fit.raw(st.e), None)[1]).ok:
        st.do('fitted_params', lambda: B.Op('fitted_params', {}).raw(st.e))
        for op in later:
            st.do(op.name, lambda: (op.raw(st.e), None)[1] if op.changes else op.raw(st.e))
    return st


def why(s, between):
    st0 = c13.Settings(s)
    fit = c13.Fit(s, st0, 'a')
    st = Steps(between, f'Why {st0.name}')
    st.do('constructor', lambda: setattr(st, 'e', st0.make()))
    if s.flip(30, 'identify') and 'treatment' not in fit.kw:
        data, kw = fit.args()
        st.do('identify', lambda: st.e.identify(data, 'y', **{k: v for k, v in kw.items() if k in ('treatment',)}))
    o = st.do('fit', lambda: (fit.run(st.e), None)[1])
    if not o.ok:
        return st
    st.append(('roles', attempt(lambda: (st.e.treatment_, st.e.adjustment_, st.e.covariate_, st.e.instrument_))))
    for _ in range(1 + s.choose(2, 'queries')):
        ask = c13.Ask(s, fit.case, st.e)
        if ask.what in ('qini',):
            continue
        between()
        st.append((ask.what, ask(st.e, ask.args())))
    return st


def datasets(s, between):
    """the seeded data generators"""
    n, seed = s.between(8, 30, 'rows'), s.pick([0, 1, 2022], 'random_seed')
    kw = {} if s.flip(20, 'default-seed') else dict(random_seed=seed)

    def seeded(fn, *a, **k):
        gen.set_random_seed(seed)
        return fn(*a, **k)
    name, fn = s.pick([
        ('sq_data', lambda: exp_data.sq_data(n, 3, 2, **kw)),
        ('multi_continuous', lambda: exp_data.multi_continuous_treatment(n=n, n_w=6, n_v=2, **kw)),
        ('single_binary', lambda: exp_data.single_binary_treatment(n=n, confounder_n=6, covariate_n=2, **kw)),
        ('single_continuous', lambda: exp_data.single_continuous_treatment(num=n, confounder_n=6, covariate_n=1, **kw)),
        ('meaningless_', lambda: exp_data.meaningless_discrete_dataset_(n, [1.0, 2.0, 4.0], **kw)),
        ('meaningless', lambda: exp_data.meaningless_discrete_dataset(n, 2, treatment_effct=[1.0, 2.0, 3.0], prob=[.2, .3, .5], **kw)),
        ('gen', lambda: seeded(gen.gen, n=n, d=4)),
        ('dygen', lambda: seeded(gen.dygen, n=n, d=3)),
    ], 'generator')
    st = Steps(between, 'data.' + name)
    st.do('data', fn)
    if s.flip(40, 'again'):
        st.do('data again', fn)
    return st


CASES = dict(datasets=datasets, worlds=worlds, factory=factory, unseeded_models=unseeded_models, uplift=uplift, discovery=discovery, network=network, why=why)


def remote(case, choices, seed):
    pyro.clear_param_store()
    st = CASES[case](Sim(choices=choices), Noise(seed))
    return [(n, o) for n, o in st]


def comparable(o):
    return o


def compare(name, base, got, where):
    for i, (label, a) in enumerate(base):
        if i >= len(got) or got[i][0] != label:
            raise Violation('not-repeatable', f'{name}.{label}', f'{where}: the call was not reached')
        b = got[i][1]
        if not outcome_same(a, b, rtol=1e-9, atol=1e-12):
            raise Violation('not-repeatable', f'{name}.{label.split("(")[0].split(":")[0]}', f'{label} {where}: {a} / {b}')


def scenario(case):
    def run(sim):
        pyro.clear_param_store()
        at = len(sim.choices)
        st = CASES[case](sim, Calm())
        rec = sim.choices[at:]
        sim.note(st.name, [(n, o.ok, fp(o.val) if o.ok else o.exc.split(':')[0]) for n, o in st])
        sim.count('calls', len(st))
        sim.count('refused', sum(not o.ok for _, o in st))
        if not any(o.ok and n != 'constructor' for n, o in st):
            raise Skip('refused')
        sim.mark(st.name, len(st))
        for i in range(1 + sim.choose(2, 'variants')):
            seed = sim.choose(2 ** 31 - 1, 'noise')
            noise = Noise(seed)
            before = ''
            if sim.flip(30, 'other-first'):
                pyro.clear_param_store()
                attempt(CASES[case], Sim(seed=seed), noise)
                before = 'after another case, '
                sim.fault('other-work')
            pyro.clear_param_store()
            noise.done = []
            got = CASES[case](Sim(choices=rec), noise)
            for d in noise.done:
                sim.fault('generators-' + d.replace(' ', '-'))
            compare(st.name, st, got, f'{before}generators {", ".join(noise.done)}')
        if peers.count() and not st.name.startswith('pgm-') and sim.flip(60, 'peer'):
            seed = sim.choose(2 ** 31 - 1, 'noise')
            i = sim.choose(peers.count(), 'peer')
            got = peers.call(i, 'remote', case, rec, seed)
            sim.fault('other-hash-seed')
            compare(st.name, st, got, 'in a process with another hash seed')
    run.__name__ = case
    return run


MODULES = ['ylearn.causal_discovery', 'ylearn.causal_model', 'ylearn.bayesian', 'ylearn.policy.policy_model', 'ylearn.uplift',
           'ylearn.effect_interpreter.policy_interpreter', 'ylearn.estimator_model', 'ylearn.api', 'ylearn.exp_dataset.gen']


def imports(sim):
    """in a new process: the same seeded work before and after parts of ylearn are imported or used for the first time"""
    what = sim.pick(sorted(c03_fresh.COMPONENTS), 'component')
    k = sim.choose(4, 'seed')
    steps = [(what, k)]
    for _ in range(1 + sim.choose(3, 'between')):
        if sim.flip(75, 'import'):
            steps.append(('import', sim.pick(MODULES, 'module')))
            sim.fault('first-import')
        else:
            steps.append((sim.pick(sorted(c03_fresh.COMPONENTS), 'other'), sim.choose(4, 'seed')))
            sim.fault('other-work')
    steps.append((what, k))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p), OMP_NUM_THREADS='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'props.c03_fresh', json.dumps(steps)], env=env, capture_output=True, text=True,
                       timeout=200)
    got = [ln for ln in p.stdout.splitlines() if ln.startswith('OUT ')]
    if not got:
        raise RuntimeError(f'the process ended with {p.returncode}: {p.stderr[-300:]}')
    out = json.loads(got[0][4:])
    sim.note('imports', steps, fp(str(out)))
    sim.mark(what, steps)
    for (name, arg), r in zip(steps[1:], out[1:]):
        if name == what and arg == k:
            a, b = ([float.fromhex(v) for v in r] if isinstance(r, list) else r for r in (out[0], r))
            if isinstance(a, list) != isinstance(b, list) or isinstance(a, list) and not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
                raise Violation('not-repeatable', f'{what}.fresh-process', f'after {steps[1:-1]}: {str(a)[:100]} / {str(b)[:100]}')


SCENARIOS = [('imports', imports, 1)] + [(c, scenario(c), w) for c, w in (('worlds', 4), ('factory', 5), ('unseeded_models', 1), ('uplift', 1), ('discovery', 3),
                                             ('network', 3), ('why', 5), ('datasets', 1))]
