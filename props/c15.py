"""C15: causal discovery always yields a usable DAG and keeps no history."""
import warnings

import numpy as np
import pandas as pd
import torch
from sklearn.preprocessing import MaxAbsScaler
from castle import algorithms as CA
from ylearn.causal_discovery import (BaseDiscovery, CausalDiscovery, DagmaDiscovery, DyCausalDiscovery, DygolemCausalDiscovery,
                                     GCastleProxy, GolemDiscovery, PgmProxy)
from ylearn.causal_model import CausalGraph

from dst.core import Skip, Violation, attempt, canon, fp, outcome_same
from dst.simjoblib import perturb_rng
from dst.tracer import choose_crash, crash_at, limited, record_lines

torch.set_num_threads(1)
warnings.simplefilter('ignore')

RULE = ('One run: a discoverer (notears, golem, dagma, two time-series learners, gcastle, pgmpy) is called a few times on seeded data with '
        'its weights or linear algebra disturbed at chosen training steps (NaN, inf, random, stalled, raised); every completed call is '
        'checked to be a DAG over the columns, in agreement in all forms, and equal to the call on a new object. Or: seeded weight '
        'matrices and graphs go through trimming and the form conversions, compared with plain definitions.')
REAL = ['ylearn.causal_discovery', 'torch', 'gcastle and pgmpy learners', 'networkx', 'CausalGraph']
STUB = ['optimizer steps and linear algebra results at faulted steps', 'interruption at chosen source lines']
ASSUMPTIONS = ['calls on one discoverer do not overlap in time (training seeds the process-wide generators)']
QUICK_S = 45
RUN_TIMEOUT = 240


# ---- faults in training ---------------------------------------------------------------------
class Disturb:
    """replaces optimizer steps and matrix functions of torch; counts calls and fires the planned fault"""
    OPS = [('inverse', torch, 'inverse'), ('exp', torch, 'matrix_exp'), ('slogdet', torch, 'slogdet')]

    def __init__(self, plan):
        self.plan = plan or {}
        self.n = 0
        self.fired = []

    def weights(self, p):
        kind, seed = self.plan['value']
        rs = np.random.RandomState(seed)
        shape = tuple(p.shape)
        if kind == 'nan':
            v = np.where(rs.rand(*shape) < 0.5, np.nan, 1.0) if self.plan['partial'] else np.full(shape, np.nan)
        elif kind == 'inf':
            v = np.where(rs.rand(*shape) < 0.3, np.inf, rs.randn(*shape))
        elif kind == 'ties':
            v = rs.choice([0., 0., 1., 1., 2.], size=shape)
        elif kind == 'signed':
            v = rs.choice([-2., -1., -0.5, 0., 0.5, 1.], size=shape)
        else:
            v = rs.randn(*shape) * [1e-3, 1., 1e6][seed % 3]
        with torch.no_grad():
            p.copy_(torch.tensor(v, dtype=p.dtype))

    def boom(self):
        self.fired.append(self.plan['do'])
        raise {'raise': RuntimeError('injected'), 'alloc': MemoryError('injected'),
               'interrupt': KeyboardInterrupt('injected')}[self.plan['do']]

    def __enter__(self):
        self.saved = []
        pl = self.plan

        def wrap_step(real):
            def step(opt, *a, **k):
                i = self.n
                self.n += 1
                hit = pl.get('where') == 'step' and (i == pl['at'] or (pl['stay'] and i > pl['at']))
                if hit and pl['do'] in ('raise', 'alloc', 'interrupt'):
                    self.boom()
                if hit and pl['do'] == 'stall':
                    self.fired.append('stall')
                    return None
                r = real(opt, *a, **k)
                if hit:
                    self.fired.append('weights-' + pl['value'][0])
                    for g in opt.param_groups:
                        for p in g['params']:
                            self.weights(p)
                return r
            return step
        for c in (torch.optim.LBFGS, torch.optim.Adam):
            self.saved.append((c, 'step', c.step))
            c.step = wrap_step(c.step)

        def wrap_op(real, name):
            def op(x, *a, **k):
                if pl.get('where') != name:
                    return real(x, *a, **k)
                i = self.n
                self.n += 1
                if i != pl['at']:
                    return real(x, *a, **k)
                if pl['do'] in ('raise', 'alloc', 'interrupt'):
                    self.boom()
                self.fired.append('result-nan' if pl['value'][0] == 'nan' else 'result-changed')
                r = real(x, *a, **k)
                c = float('nan') if pl['value'][0] == 'nan' else -3.0
                return tuple(t * c for t in r) if isinstance(r, tuple) else r * c
            return op
        for name, m, attr in self.OPS:
            self.saved.append((m, attr, getattr(m, attr)))
            setattr(m, attr, wrap_op(getattr(m, attr), name))
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


def plan(sim, kind):
    if not sim.flip(65, 'disturb'):
        return {}
    where = ['step', 'step', 'exp', 'slogdet', 'inverse'][sim.choose(5, 'fault-place')] if kind.torch else None
    if where is None:
        return {}
    if kind.name == 'dagma':
        where = 'inverse'
    return dict(where=where, at=sim.between(0, kind.steps, 'fault-at'), stay=sim.flip(30, 'fault-stays'),
                do=['weights', 'weights', 'weights', 'stall', 'raise', 'alloc', 'interrupt'][sim.choose(7, 'fault-do')],
                value=(['nan', 'signed', 'ties', 'normal', 'inf'][sim.choose(5, 'fault-value')], sim.choose(10000, 'fault-seed')),
                partial=sim.flip(50, 'fault-partial'))


# ---- discoverers -----------------------------------------------------------------------------
class Kind:
    def __init__(self, name, init, call, torch=True, steps=4, data='num', pair=False):
        self.name, self.init, self.call, self.torch, self.steps, self.data, self.pair = name, init, call, torch, steps, data, pair


def _thr(sim, alts):
    return dict(threshold=alts[sim.choose(len(alts), 'threshold')])


def _scale(sim):
    return ['auto', None, 'std', MaxAbsScaler(), True][sim.choose(5, 'scale')]


KINDS = [
    (Kind('notears', lambda s: (lambda h, sc: lambda rs: CausalDiscovery(hidden_layer_dim=h, scale=sc, random_state=rs))(
        [None, [2], [3, 2]][s.choose(3, 'hidden')], _scale(s)),
        lambda s: dict(_thr(s, [0.01, None, 0.3]), epoch=s.between(1, 3, 'epoch'), max_iter=s.between(1, 12, 'max_iter'),
                       lr=[0.01, 1.0][s.choose(2, 'lr')])), 6),
    (Kind('golem', lambda s: (lambda sc, la: lambda rs: GolemDiscovery(lambdaa=la, scale=sc, random_state=rs))(
        _scale(s), [0.01, 0.2][s.choose(2, 'lambda')]),
        lambda s: dict(_thr(s, [0.3, 0.01, None]), epoch=s.between(1, 12, 'epoch'), lr=[0.1, 0.001, 2.0][s.choose(3, 'lr')]), steps=6), 4),
    (Kind('dagma', lambda s: (lambda lr, w, m, T: lambda rs: DagmaDiscovery(lr=lr, warm_iter=w, max_iter=m, T=T, random_state=rs))(
        [0.0003, 0.05, 0.5][s.choose(3, 'lr')], s.between(1, 12, 'warm'), s.between(1, 20, 'iters'), [5, 3, 7][s.choose(3, 'T')]),
        lambda s: _thr(s, [0.01, 0.3, None]), steps=12), 4),
    (Kind('dynotears', lambda s: (lambda la: lambda rs: DyCausalDiscovery(lambdaa=la, random_state=rs))([0.01, 0.2][s.choose(2, 'lambda')]),
          lambda s: dict(_thr(s, [0.3, 0.01, None]), epoch=s.between(1, 3, 'epoch'), max_iter=s.between(1, 8, 'max_iter'),
                         order=s.between(1, 2, 'order'), step=s.between(2, 4, 'step')), data='time', pair=True), 3),
    (Kind('dygolem', lambda s: lambda rs: DygolemCausalDiscovery(random_state=rs),
          lambda s: dict(_thr(s, [0.3, 0.01, None]), epoch=s.between(1, 8, 'epoch'), lr=[0.05, 0.5][s.choose(2, 'lr')],
                         order=s.between(1, 2, 'order'), step=s.between(2, 4, 'step'), verbose=False), data='time', pair=True), 3),
    (Kind('gcastle', lambda s: (lambda i, name: lambda rs: GCastleProxy(
        {'PC()': lambda: CA.PC(), 'GES()': lambda: CA.GES()}.get(name, lambda: name)(), random_state=rs))(
            0, ['PC', 'GES', 'DirectLiNGAM', None, 'PC()', 'GES()'][s.choose(6, 'learner')]),
          lambda s: dict(_thr(s, [None, 0.1, 0.5])), torch=False), 4),
    (Kind('pgm-pc', lambda s: lambda rs: PgmProxy('PC', random_state=rs), lambda s: {}, torch=False), 2),
    (Kind('pgm-hc', lambda s: lambda rs: PgmProxy('HillClimbSearch', random_state=rs, show_progress=False), lambda s: {}, torch=False,
          data='cat'), 2),
]
NAMES = [list('abcde'), list('edcba'), ['x10', 'x9', 'y', 'treat', 'A'], [3, 1, 0, 4, 2], ['y', 1, 'z', 'b', 0]]


def make_data(sim, kind, d, kw, tag):
    """two tables of the same values: DataFrame and ndarray"""
    n = sim.between(12, 40, 'rows')
    if kind.data == 'time':
        n = (kw['order'] + kw['step']) * sim.between(3, 6, 'series')
    rs = sim.nprng('data' + tag)
    z = np.zeros((n, d))
    order = rs.permutation(d)
    for k, j in enumerate(order):
        z[:, j] = rs.normal(size=n) * (0.2 + rs.rand()) + sum(z[:, i] * rs.choice([0, 0, 1, -2]) for i in order[:k])
    odd = sim.choose(8, 'odd-data')
    if odd == 1:
        z[:, 0] = 1.5
    elif odd == 2:
        z[:, -1] = z[:, 0]
    elif odd == 3 and kind.data != 'cat':
        z[sim.choose(n, 'nan-row'), sim.choose(d, 'nan-col')] = np.nan
    elif odd == 4:
        z *= 1e5
    if kind.data == 'cat':
        z = (z > 0).astype(int)
    return z


def edges_of(a):
    """edges i -> j of a weight matrix"""
    return [(i, j) for i in range(len(a)) for j in range(len(a)) if not a[i, j] == 0]


def acyclic(n, edges):
    left, es = set(range(n)), list(edges)
    while left:
        free = [v for v in left if not any(j == v and i in left for i, j in es)]
        if not free:
            return False
        left -= set(free)
    return True


def check_matrix(m, cols, frame, sig, what):
    if frame and not isinstance(m, pd.DataFrame) or not frame and not isinstance(m, np.ndarray):
        raise Violation('wrong-form', sig, f'{what}: {type(m).__name__}')
    if frame and (list(m.columns) != cols or list(m.index) != cols):
        raise Violation('wrong-columns', sig, f'{what}: rows {list(m.index)} columns {list(m.columns)}; data has {cols}')
    a = np.asarray(m, dtype=float)
    if a.shape != (len(cols), len(cols)):
        raise Violation('wrong-columns', sig, f'{what}: shape {a.shape} for {len(cols)} columns')
    es = edges_of(a)
    if any(i == j for i, j in es):
        raise Violation('self-edge', sig, f'{what}: {a.tolist()}')
    if not acyclic(len(cols), es):
        raise Violation('cycle', sig, f'{what}: {a.tolist()}')
    return es


def check_dict(dd, cols, es, sig, what):
    want = {c: sorted(str(cols[i]) for i, j in es if j == k) for k, c in enumerate(cols)}
    got = {k: sorted(map(str, v)) for k, v in dd.items()} if isinstance(dd, dict) else type(dd).__name__
    if got != want:
        raise Violation('forms-disagree', sig, f'{what}: dictionary {got}; matrix has parents {want}')


def check_graph(dd, cols, es, sig, what):
    cg = attempt(lambda: sorted((str(a), str(b)) for a, b, k in CausalGraph(dd).dag.edges(keys=True)))
    want = tuple(sorted((str(cols[i]), str(cols[j])) for i, j in es))
    if not cg.ok or cg.val[1] != tuple(('seq', e) for e in want):
        raise Violation('graph-wrong', sig, f'{what}: causal graph {cg}; edges {want}')


def check_conversions(m, cols, es, sig, what):
    """the published conversions of a result matrix describe exactly its edges"""
    def run(fn, name):
        o, over = limited(lambda: attempt(fn), 200000)
        if over:
            raise Violation('does-not-finish', sig, f'{name} of {np.asarray(m).tolist()}')
        if not o.ok:
            raise Violation('conversion-failed', sig, f'{name} of {np.asarray(m).tolist()}: {o}')

    res = {}
    run(lambda: res.setdefault('d', BaseDiscovery.matrix2dict(m)), 'matrix2dict')
    check_dict(res['d'], cols, es, sig, what)
    check_graph(res['d'], cols, es, sig, what)
    if np.isnan(np.asarray(m, dtype=float)).any():
        return                                          # no order between such weights
    run(lambda: res.setdefault('f', BaseDiscovery.matrix2df(m)), 'matrix2df')
    a = np.asarray(m, dtype=float)
    rows = {(str(r[0]), str(r[1])): float(r[2]) for r in res['f'].itertuples(index=False) if not r[2] == 0}
    want = {(str(cols[i]), str(cols[j])): a[i, j] for i, j in es}
    if list(res['f'].columns) != ['from', 'to', 'prob'] or set(rows) != set(want) \
            or any(not (rows[k] == want[k] or (rows[k] != rows[k] and want[k] != want[k])) for k in want):
        raise Violation('forms-disagree', sig, f'{what}: edge table {rows}; matrix {want}')


def pick_kind(sim):
    k = KINDS[sim.weighted([w for _, w in KINDS], 'discoverer')][0]
    sim.count('discoverer:' + k.name)
    return k


def do_call(sim, obj, x, kw, pl, g, form=None):
    """one call under a fault plan from a known state of the process-wide generators; Out and what fired"""
    np.random.seed(g)
    torch.manual_seed(g)
    import random
    random.seed(g)
    with Disturb(pl) as dis:
        o = attempt(lambda: _keep.__setitem__('r', obj(x, **dict(kw, **({'return_dict': True} if form else {})))) or _val(_keep['r']))
    return o, dis.fired


def same_layout(x):
    """a copy that numpy walks in the same order: dagma and others break near ties of |w_ij| and |w_ji| by the last bits"""
    if not isinstance(x, pd.DataFrame):
        return x.copy(order='K')
    v = x.values
    c = x.copy()
    if c.values.strides != v.strides:
        c = pd.DataFrame(v.copy(order='K'), columns=x.columns, index=x.index, copy=False)
    return c


_keep = {}


def _val(r):
    if isinstance(r, tuple):
        return tuple(_val(x) for x in r)
    if isinstance(r, dict):
        return sorted((str(k), list(map(str, v))) for k, v in r.items())
    return r


def discovery(sim):
    kind = pick_kind(sim)
    d = sim.between(2, 5, 'columns')
    cols = sim.pick(NAMES, 'names')[:d]
    mk = kind.init(sim)
    rs = [3, 0, None][sim.choose(3, 'random_state')]
    obj = mk(rs)
    steps = sim.between(1, 3, 'calls')
    sig = kind.name
    for s in range(steps):
        kw = kind.call(sim)
        z = make_data(sim, kind, d, kw, str(s))
        frame = sim.flip(60, 'frame')
        df = pd.DataFrame(z, columns=cols)
        if sim.flip(30, 'odd-index'):
            df.index = df.index[::-1] + 7
        pl = plan(sim, kind)
        g = sim.choose(99999, 'process-seed')
        x = df if frame else z
        cc = cols if frame else list(range(d))
        if s < steps - 1 and sim.flip(25, 'interrupt-call'):
            _, sites, _ = record_lines(lambda: do_call(sim, mk(rs), x.copy(), kw, pl, g))
            cp = choose_crash(sim, sites)
            if cp is not None:
                site, occ, nm, exc = cp
                _, fired = crash_at(lambda: do_call(sim, obj, x.copy(), kw, pl, g), site, occ, exc)
                if fired:
                    sim.fault('line-' + nm)
                    sim.note('call', s, nm, 'interrupted')
                    continue
        o, fired = do_call(sim, obj, x.copy(), kw, pl, g)
        for f in fired[:3]:
            sim.fault(f)
        res = _keep.get('r') if o.ok else None
        what = f'{kind.name} call {s} with {kw}, {len(z)} rows, fault {pl}'
        sim.note('call', s, kind.name, o.ok, fired[:2], fp(o.val) if o.ok else o.exc[:40])
        sim.mark(kind.name, s, o.ok, tuple(fired[:2]), frame)
        if o.ok:
            sim.count('completed calls')
            if kind.pair:
                if not (isinstance(res, tuple) and len(res) == 2):
                    raise Violation('wrong-form', sig, f'{what}: {type(res)}')
                w = res[0]
                es = check_matrix(np.asarray(w), list(range(d)), False, sig, what)
                if np.asarray(res[1]).shape[:2] != (d, d):
                    raise Violation('wrong-columns', sig, f'{what}: lagged weights {np.asarray(res[1]).shape}')
            else:
                es = check_matrix(res, cc, frame, sig, what)
                check_conversions(res, cc, es, sig, what)
        # the same call on a new object
        perturb_rng(sim)
        fresh = mk(rs)
        of, _ = do_call(sim, fresh, x.copy(), kw, pl, g)
        if not outcome_same(o, of):
            raise Violation('depends-on-history', sig, f'{what}: {o}; new object: {of}')
        if o.ok and not kind.pair:
            # the same result as a dictionary
            od, _ = do_call(sim, fresh if sim.flip(50, 'same-object') else mk(rs), x.copy(), kw, pl, g, form='dict')
            if not od.ok:
                raise Violation('form-failed', sig, f'{what}: return_dict: {od}')
            check_dict(_keep['r'], cc, es, sig, what)


def conversions(sim):
    """seeded weight matrices through the library's own trimming and conversions"""
    d = sim.between(1, 6, 'columns')
    rs = sim.nprng('matrix')
    kind = sim.choose(5, 'weights')
    p = [0.3, 0.6, 1.0][sim.choose(3, 'density')]
    a = np.where(rs.rand(d, d) < p, 1.0, 0.0)
    if kind == 1:
        a = a * rs.rand(d, d)
    elif kind == 2:
        a = a * rs.choice([0.2, 0.2, 0.7], size=(d, d))
    elif kind == 3:
        a = a * rs.randn(d, d)
    elif kind == 4:
        a = a * np.where(rs.rand(d, d) < 0.2, np.nan, rs.rand(d, d))
    sim.mark('m', d, kind, fp(a))
    cols = sim.pick(NAMES + [['x10', 'x9', 'y', 'treat', 'A', 'w']], 'names')
    cols = (cols + ['last'])[:d]
    if sim.flip(50, 'dag-first'):
        perm = rs.permutation(d)                      # a DAG in a random order: conversions only, any sign
        a = np.triu(a, 1)[perm][:, perm]
        m = pd.DataFrame(a, columns=cols, index=cols) if sim.flip(50, 'frame') else a
        cc = cols if isinstance(m, pd.DataFrame) else list(range(d))
        es = edges_of(a)
        check_conversions(m, cc, es, 'conversion', 'seeded DAG')
        if isinstance(m, np.ndarray):
            dd = attempt(lambda: BaseDiscovery.matrix2dict(m, names=cols))
            if not dd.ok:
                raise Violation('conversion-failed', 'conversion', f'names given: {dd}')
            check_dict(BaseDiscovery.matrix2dict(m, names=cols), cols, es, 'conversion', 'seeded DAG, names given')
        sim.note('conv', d, len(es))
        return
    np.fill_diagonal(a, 0)
    before = a.copy()
    keep = {}

    def go():
        return keep.setdefault('r', BaseDiscovery.trim_cycle(a))
    o, over = limited(lambda: attempt(go), 400000)
    if over:
        raise Violation('does-not-finish', 'trim', f'{before.tolist()}')
    if not np.array_equal(a, before, equal_nan=True):
        raise Violation('argument-changed', 'trim', f'{before.tolist()} -> {a.tolist()}')
    sim.note('trim', d, o.ok)
    if not o.ok:
        if kind in (0, 1, 2):                          # ordinary weights must be trimmed, not refused
            raise Violation('trim-failed', 'trim', f'{before.tolist()}: {o}')
        raise Skip('trim refused')
    r = np.asarray(keep['r'], dtype=float)
    if r.shape != a.shape:
        raise Violation('wrong-columns', 'trim', f'{r.shape} from {a.shape}')
    es = edges_of(r)
    if not acyclic(d, es):
        raise Violation('cycle', 'trim', f'{before.tolist()} -> {r.tolist()}')
    for i, j in es:
        if not (r[i, j] == before[i, j] or (r[i, j] != r[i, j] and before[i, j] != before[i, j])):
            raise Violation('edge-invented', 'trim', f'{before.tolist()} -> {r.tolist()}')
    if acyclic(d, edges_of(before)) and len(es) != len(edges_of(before)):
        raise Violation('edge-lost', 'trim', f'{before.tolist()} -> {r.tolist()}')


SCENARIOS = [('discovery', discovery, 4), ('conversions', conversions, 2)]
