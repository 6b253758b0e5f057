"""C08: the caller's data, arguments and models are never modified."""
import copy

import networkx as nx
import numpy as np
import pandas as pd
from ylearn.bayesian import SviBayesianNetwork
from ylearn.causal_model import CausalGraph, CausalModel

from dst.core import Skip, Violation, attempt, fp
from dst.simjoblib import JobSim
from dst.tracer import choose_crash, crash_at, record_lines
from . import bn as B
from . import c04, c13, c14, c15
from . import faults as F
from . import graphs as G
from . import snap as S
from . import worlds as W

RULE = ('One run: one object or workflow with seeded settings, one or two fits and some queries, some of them failing or interrupted at a '
        'seeded point; every argument is snapshotted by value before each call and compared after it.')
REAL = ['ylearn estimators, policy tree, interpreters, uplift model, Why workflow, discoverers, causal graphs and models, Bayesian networks',
        'joblib.Parallel dispatch', 'scikit-learn nuisance models', 'networkx, torch, pyro']
STUB = ['joblib worker back ends (simulated workers)', 'user models wrapped so that their calls can fail on demand',
        'numerical faults in training of discoverers', 'interruption at chosen source lines']
ASSUMPTIONS = ['Why.fit(copy=False) may use the frame it is given', 'a change is a change of value, dtype, shape, labels or order of an argument as visible to the caller']

TEMPLATES = {'SLearner', 'TLearner', 'XLearner', 'DoubleML', 'DoublyRobust', 'CausalForest', 'Permuted'}


class Guard:
    def __init__(self, sim, kind):
        self.sim, self.kind = sim, kind
        self.items = {}

    def watch(self, **kw):
        for k, v in kw.items():
            self.items[k] = (v, S.snap(v))

    def check(self, what, op):
        for k, (v, before) in self.items.items():
            after = S.snap(v)
            if after != before:
                raise Violation('argument-changed', f'{self.kind}.{op}.{k}',
                                f'{what} changed the caller\'s {k}: {S.where(before, after)}')
        self.sim.count('argument-checks', len(self.items))


def estimators(sim):
    kind = W.pick_kind(sim)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    with JobSim(sim, mode='order') as js:
        obj = kind.make()
        g = Guard(sim, kind.name)
        for k, v in kind.passed.items():
            if S.snap(v) != S.snap(kind.cfg[k]):
                raise Violation('argument-changed', f'{kind.name}.constructor.{k}',
                                f'the constructor changed the caller\'s {k}: {S.where(S.snap(kind.cfg[k]), S.snap(v))}')
        if kind.name in TEMPLATES and not (kind.name == 'Permuted' and kind.cfg['which'] == 'tree'):
            for k, v in kind.passed.items():
                if isinstance(v, W._Wrap):
                    g.watch(**{f'model_{k}': v})
        for i in range(sim.between(1, 2, 'fits')):
            w = kind.world(sim, tag=str(i))
            sp = kind.spec(sim, w)
            kw = {k: (v if isinstance(v, pd.DataFrame) or hasattr(v, 'estimate') else copy.deepcopy(v)) for k, v in sp.kwargs.items()}
            for r in ('outcome', 'treatment', 'adjustment', 'covariate', 'instrument'):
                if isinstance(kw.get(r), list) and sim.flip(40, 'role-order'):
                    kw[r] = sim.shuffled(kw[r], r)
            g.watch(**{f'{i}_{k}' if i else k: v for k, v in kw.items()})
            passed = kind.passed
            call = lambda: (obj.fit(**kw), None)[1]
            if isinstance(sp, W.SeededSpec):
                np.random.seed(sp.seed)
            if sim.flip(45, 'faulted'):
                kind2 = kind.make()
                kind.passed = passed
                o, fired, what = F.faulted_call(sim, kind, call, lambda: (sp.call(kind2), None)[1], js)
            else:
                o, what = attempt(call), 'no fault'
            sim.note('fit', o.ok, o.exc, what)
            sim.mark('fit', o.ok)
            g.check(f'fit ({what}; {o})', 'fit')
            for q in kind.queries(sim, w, sim.between(1, 3, 'queries')):
                g2 = Guard(sim, kind.name)
                for k, v in q.kw.items():
                    if not isinstance(v, (str, int, float, bool, type(None))):
                        g2.watch(**{k: v})
                a = None
                if sim.flip(25, 'interrupt-query'):
                    _, sites, _ = record_lines(lambda: q(obj))
                    g.check(f'query {q.name}', q.op)
                    g2.check(f'query {q.name}', q.op)
                    cp = choose_crash(sim, sites)
                    if cp is not None:
                        site, occ, nm, exc = cp
                        _, fired = crash_at(lambda: q(obj), site, occ, exc)
                        if fired:
                            sim.fault('line-' + nm)
                else:
                    a = q(obj)
                sim.note('query', q.name, a and a.ok)
                sim.mark('q', q.name)
                g.check(f'query {q.name}', q.op)
                g2.check(f'query {q.name}', q.op)


def faulted(sim, call, twin, pct=35):
    """the call, sometimes interrupted at a line a twin call was seen to execute"""
    if sim.flip(pct, 'interrupt'):
        _, sites, _ = record_lines(lambda: attempt(lambda: (twin(), None)[1]))
        cp = choose_crash(sim, sites)
        if cp is not None:
            site, occ, nm, exc = cp
            box = {}
            _, fired = crash_at(lambda: box.setdefault('o', attempt(lambda: (call(), None)[1])), site, occ, exc)
            if fired:
                sim.fault('line-' + nm)
                sim.mark('crash', site[0][-20:], site[1])
            return box['o'], f'interrupted by {nm}'
    return attempt(lambda: (call(), None)[1]), 'no fault'


def why(sim):
    """the Why workflow: constructor arguments, data, role lists, query arguments"""
    st = c13.settings(sim)
    given = st.args()
    g = Guard(sim, 'Why')
    g.watch(**{k: v for k, v in given.items() if not isinstance(v, (str, int, float))})
    obj = st.make(given)
    g.check('the constructor', 'constructor')
    for s in range(sim.between(1, 2, 'fits')):
        fit = c13.Fit(sim, st, str(s))
        if sim.flip(15, 'damaged'):
            fit = fit.damaged(sim)
            sim.fault('damaged-data')
        data, kw = args = fit.args()
        for r in sorted(kw):
            if isinstance(kw[r], list) and sim.flip(40, 'role-order'):
                kw[r] = sim.shuffled(kw[r], r)
        g.watch(**{f'{s}_data': data, **{f'{s}_{k}': v for k, v in kw.items()}})
        W.PLAN.disarm()
        if sim.flip(25, 'model-fails'):
            W.PLAN.arm(sim.choose(6, 'fail-at-call'), W.NuisanceFailed('injected'))
            o, what = attempt(lambda: fit.run(obj, args)), 'failing model'
            if W.PLAN.fired:
                sim.fault('nuisance-model-error')
            W.PLAN.disarm()
            W.PLAN.fired = 0
        else:
            o, what = faulted(sim, lambda: fit.run(obj, args), lambda: fit.run(st.make()))
        sim.note('fit', s, st.name, what, o.ok, o.exc)
        g.check(f'fit ({what}; {o})', 'fit')
        for j in range(sim.between(1, 3, 'asks')):
            class known:
                treatment_ = getattr(obj, 'treatment_', None) or fit.case.x
            ask = c13.Ask(sim, fit.case, known)
            a = ask.args()
            g2 = Guard(sim, 'Why')
            g2.watch(**{k: v for k, v in a.items() if not isinstance(v, (str, int, float, bool, type(None)))})
            o, what = faulted(sim, lambda: ask.ask(obj, a), lambda: ask.ask(copy.deepcopy(obj), ask.args()), 20)
            sim.note('query', ask.name, what, o.ok)
            sim.mark('q', ask.what, o.ok)
            g.check(f'{ask.name} ({what}; {o})', ask.what)
            g2.check(f'{ask.name} ({what}; {o})', ask.what)


def discovery(sim):
    """discoverers: data, options and conversions of results"""
    kind = c15.pick_kind(sim)
    d = sim.between(2, 5, 'columns')
    cols = sim.pick(c15.NAMES, 'names')[:d]
    mk = kind.init(sim)
    obj = mk(3)
    for s in range(sim.between(1, 2, 'calls')):
        kw = kind.call(sim)
        z = c15.make_data(sim, kind, d, kw, str(s))
        x = pd.DataFrame(z, columns=cols) if sim.flip(60, 'frame') else z
        pl = c15.plan(sim, kind)
        if sim.flip(40, 'dictionary') and not kind.pair:
            kw['return_dict'] = True
        g = Guard(sim, kind.name)
        g.watch(data=x, **{k: v for k, v in kw.items() if not isinstance(v, (str, int, float, bool, type(None)))})
        y = x.copy()
        c15._keep.clear()
        o, what = faulted(sim, lambda: c15.do_call(sim, obj, x, kw, pl, 5), lambda: c15.do_call(sim, mk(3), y, kw, pl, 5))
        sim.note('call', s, kind.name, what, o.ok, type(x).__name__)
        sim.mark(kind.name, type(x).__name__)
        g.check(f'call ({what})', 'call')
        r = c15._keep.get('r')
        if isinstance(r, (np.ndarray, pd.DataFrame)):
            conversions(sim, r)


def conversions(sim, m=None):
    if m is None:
        n = sim.between(2, 5, 'n')
        rs = sim.nprng('matrix')
        m = rs.normal(size=(n, n)) * (rs.rand(n, n) < 0.5)
        if sim.flip(50, 'frame'):
            m = pd.DataFrame(m, index=list('abcde')[:n], columns=list('abcde')[:n])
    g = Guard(sim, 'BaseDiscovery')
    g.watch(matrix=m)
    thr = sim.pick([None, 0.1, 0.5], 'threshold')
    BD = c15.BaseDiscovery
    for nm in sim.shuffled(['matrix2dict', 'matrix2df', 'trim_cycle'], 'conversion')[:2]:
        f = {'matrix2dict': lambda: BD.matrix2dict(m, threshold=thr, depth=sim.between(1, 2, 'depth')),
             'matrix2df': lambda: BD.matrix2df(m, threshold=thr),
             'trim_cycle': lambda: BD.trim_cycle(m if isinstance(m, np.ndarray) else m.values)}[nm]
        o, what = faulted(sim, f, lambda: None, 0)
        sim.note(nm, thr, o.ok)
        sim.mark(nm, thr, np.asarray(m).shape, type(m).__name__, fp(np.asarray(m).round(3)))
        g.check(f'{nm} ({o})', nm)


def graphs(sim):
    """causal graphs and causal models: declarations, edit arguments, query arguments, the data"""
    mg = G.random_graph(sim, 5)
    items, arcs = G.declare(sim, mg)
    cau, arcs = dict((k, list(v)) for k, v in items), [tuple(a) for a in arcs] or None
    g = Guard(sim, 'CausalGraph')
    g.watch(causation=cau, arcs=arcs)
    cg = CausalGraph(cau, latent_confounding_arcs=arcs)
    g.check('the constructor', 'constructor')
    df = c14.frame(sim, mg)
    model_graph = G.build((items, arcs or []), 0)
    cm = CausalModel(causal_graph=model_graph, data=df)
    state = c14.cg_state(model_graph)
    g.watch(data=df)
    sim.note('graph', sorted((k, sorted(v)) for k, v in mg.parents.items()), sorted(map(sorted, mg.arcs)))
    pool = sorted(mg.nodes) + ['new1', 'new2']
    for step in range(sim.between(2, 6, 'steps')):
        if sim.flip(50, 'edit'):
            e = c14.edit(sim, mg, pool)
            if e is None:
                continue
            name, call, eff, a, new, raises = e
            g2 = Guard(sim, 'CausalGraph')
            g2.watch(argument=a)
            res = {}
            o, what = faulted(sim, lambda: res.setdefault('r', call(cg, a)), lambda: call(copy.deepcopy(cg), copy.deepcopy(a)), 25)
            sim.note(step, name, what, o.ok)
            sim.mark(name, what == 'no fault')
            if eff is not None and not new and o.ok and what == 'no fault':
                mg = mg.copy()
                eff(mg)
            g.check(f'{name} ({what}; {o})', name)
            g2.check(f'{name} ({what}; {o})', name)
            if what != 'no fault' and not new:
                mg = G.random_graph(sim, 4)              # an in-place edit that was cut short: start from another graph
                items, arcs = G.declare(sim, mg)
                cg = G.build((items, arcs), 0)
        else:
            m0 = G.read(model_graph)
            qs = c14.mixed_questions(sim, m0)
            if not qs:
                continue
            q = qs[0]
            g2 = Guard(sim, 'CausalModel')
            g2.watch(query=q)
            twin = CausalModel(causal_graph=copy.deepcopy(model_graph), data=df.copy())
            o, what = faulted(sim, lambda: c04.ask(cm.causal_graph, q, None, cm), lambda: c04.ask(twin.causal_graph, copy.deepcopy(q), None, twin), 25)
            sim.note(step, q, what, o.ok)
            sim.mark(q[0], what == 'no fault')
            g.check(f'{q} ({what}; {o})', q[0])
            g2.check(f'{q} ({what}; {o})', q[0])
            if c14.cg_state(model_graph) != state:
                raise Violation('argument-changed', f'CausalModel.{q[0]}.graph', f'{q} ({what}) changed the caller\'s graph: '
                                f'{S.where(state, c14.cg_state(model_graph))}')
            if sim.flip(30, 'estimate') and len(m0.nodes) > 1:
                x, y = sim.shuffled(sorted(m0.nodes), 'x-y')[:2]
                o = c14.do_estimate(cm, x, y, True)
                sim.note('estimate', x, y, o.ok)
                g.check(f'estimate {x} {y} ({o})', 'estimate')
                if c14.cg_state(model_graph) != state:
                    raise Violation('argument-changed', 'CausalModel.estimate.graph', f'estimate {x} {y} changed the caller\'s graph: '
                                    f'{S.where(state, c14.cg_state(model_graph))}')


def networks(sim):
    """Bayesian networks: the graph, data, conditions and interventions"""
    w = B.BNWorld(sim)
    gr = w.graph()
    g = Guard(sim, 'BayesianNetwork')
    shown = lambda: gr_snap(gr)
    before = shown()
    net = SviBayesianNetwork(gr)
    g.watch(**{f'data{i}': f for i, f in enumerate(w.frames)})
    for step in range(sim.between(2, 4, 'ops')):
        k = 0 if step == 0 else sim.weighted([1, 2, 4], 'op')
        op = [B.fit_op, B.do_op][k](sim, w, inplace=True) if k < 2 else B.query_op(sim, w)
        a = op.args()
        g2 = Guard(sim, 'BayesianNetwork')
        g2.watch(**a)
        twin = copy.deepcopy(net)

        def go(n, a):
            op.seed_process()
            return op.raw(n, a)
        o, what = faulted(sim, lambda: go(net, a), lambda: go(twin, op.args()), 25)
        sim.note(step, op, what, o.ok)
        sim.mark(op.name, o.ok, w.form)
        g.check(f'{op} ({what}; {o})', op.name)
        g2.check(f'{op} ({what}; {o})', op.name)
        if shown() != before:
            raise Violation('argument-changed', f'BayesianNetwork.{op.name}.graph', f'{op} ({what}; {o}) changed the caller\'s graph: {S.where(before, shown())}')


def gr_snap(gr):
    if isinstance(gr, pd.DataFrame):
        return S.snap(gr)
    if isinstance(gr, nx.Graph):
        return (tuple(map(repr, gr.nodes(data=True))), tuple(map(repr, gr.edges(data=True))))
    return S.snap(gr)


SCENARIOS = [('estimators', estimators, 6), ('why', why, 3), ('discovery', discovery, 2), ('conversions', conversions, 1),
             ('graphs', graphs, 3), ('networks', networks, 2)]
RUN_TIMEOUT = 120
QUICK_S = 60
