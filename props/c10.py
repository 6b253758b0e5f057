"""C10: saving and restoring a fitted object preserves its answers."""
import copy
import pickle

import numpy as np

from dst import peers
from dst.core import Skip, Violation, attempt, fp, outcome_same
from dst.simjoblib import JobSim
from . import bn as B
from . import c04, c13, c14, c17
from . import faults as F
from . import graphs as G
from . import worlds as W

HASHSEEDS = [11, 12]
RULE = ('One run: one fitted object, a seeded history of queries, a save point (pickle or deep copy), restore in the same process or in '
        'a process with another string hash seed, then queries and refits on either side, compared with the original\'s answers.')
REAL = ['ylearn estimators, trees, forests, policy tree, interpreters, uplift model, transformers, Why, causal graphs and models, Bayesian '
        'networks', 'pickle, copy.deepcopy, a second Python process']
STUB = ['joblib worker back ends (simulated workers)']
ASSUMPTIONS = ['the restoring process has the same version of ylearn and of its dependencies']


def remote_answers(blob, queries):
    obj = pickle.loads(blob)
    return [q(obj) for q in queries]


def restored(sim):
    kind = W.pick_kind(sim)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    with JobSim(sim, mode='order'):
        w = kind.world(sim, tag='0')
        sp = kind.spec(sim, w)
        obj = W.fitted(kind, sp)
        if obj is None:
            raise Skip('fit rejected')
        qs = kind.queries(sim, w, sim.between(2, 4, 'queries'))
        alone = [q(W.fitted(kind, sp)) for q in qs]
        for q in kind.queries(sim, w, sim.choose(3, 'before')):
            q(obj)
        how = ['pickle', 'deepcopy', 'pickle-other-process', 'pickle-twice'][sim.weighted([4, 3, 2, 1], 'how')]
        sig = f'{kind.name}.{how}'
        sim.mark(how)
        sim.note('how', how)
        try:
            if how == 'deepcopy':
                other = copy.deepcopy(obj)
            else:
                blob = pickle.dumps(obj, protocol=sim.between(2, 5, 'protocol'))
                other = None if how == 'pickle-other-process' else pickle.loads(blob)
                if how == 'pickle-twice':
                    other = pickle.loads(pickle.dumps(other))
        except Exception as e:
            raise Violation('cannot-save', sig, f'{type(e).__name__}: {e}')
        if how == 'pickle-other-process':
            idx = sim.choose(peers.count(), 'peer')
            sim.fault('restart-in-new-process')
            for q, a, b in zip(qs, alone, peers.call(idx, 'remote_answers', blob, [q.portable() for q in qs])):
                sim.note('query', q.name, a.ok)
                if not outcome_same(a, b):
                    raise Violation('restored-differs', f'{sig}.{q.op}', f'query {q.name}: original {a}; restored in a new process {b}')
            for q, a in zip(qs, alone):
                if not outcome_same(a, q(obj)):
                    raise Violation('original-changed', f'{sig}.{q.op}', f'query {q.name} after saving: {q(obj)}; before {a}')
            return
        sim.fault('restore-' + how)
        # interleave queries; optionally alter one side in between
        sides = {'original': obj, 'restored': other}
        altered = None
        for step in range(sim.between(2, 5, 'steps')):
            i = sim.choose(len(qs), 'which-query')
            side = ['restored', 'original'][sim.choose(2, 'side')]
            if side != altered:
                b = qs[i](sides[side])
                sim.note('query', side, qs[i].name, b.ok, fp(b.val) if b.ok else b.exc)
                sim.mark(side, qs[i].name, b.ok, altered)
                if not outcome_same(alone[i], b):
                    raise Violation('restored-differs' if altered is None else 'copies-not-independent', f'{sig}.{qs[i].op}',
                                    f'query {qs[i].name} on the {side} object: {b}; expected {alone[i]}; altered side: {altered}')
            if altered is None and sim.flip(40, 'refit-one-side'):
                altered = ['restored', 'original'][sim.choose(2, 'side')]
                w2 = w if sim.flip(30, 'same-world') else kind.world(sim, tag='1')
                sp2 = kind.spec(sim, w2)
                o = attempt(F.noarg(sp2, sides[altered]))
                sim.note('refit', altered, o.ok)
                sim.fault('refit-' + altered)
                fresh = kind.make()
                of = attempt(F.noarg(sp2, fresh))
                if of.ok != o.ok:
                    raise Violation('refit-outcome', sig, f'refit of the {altered} object: {o}; new object: {of}')
                if of.ok:
                    for q in kind.queries(sim, w2, 2):
                        a, b = q(fresh), q(sides[altered])
                        if not outcome_same(a, b):
                            raise Violation('refit-differs', f'{sig}.{q.op}', f'{q.name} after refitting the {altered}: {b}; new {a}')


# ---- other objects that are saved -------------------------------------------------------------
class Subject:
    """a way of making one object, questions about it, and a change to it; everything repeatable"""
    name = ''

    def make(self):
        raise NotImplementedError

    def same(self, a, b):
        return outcome_same(a, b)

    def question(self, sim, i):
        """(name, callable on an object that can be sent to another process)"""
        raise NotImplementedError

    def change(self, sim):
        """(name, callable altering an object in place)"""
        raise NotImplementedError


class TransformerSubject(Subject):
    def __init__(self, sim):
        for _ in range(4):
            self.kind, self.mk = c17.pick(sim)
            self.table = c17.Table(sim, self.kind.kinds)
            self.fit = c17.Fit(sim, self.kind, self.table, '0')
            if self.make() is not None:
                break
        else:
            raise Skip('fits refused')
        self.name = 'transformer.' + self.kind.name

    def make(self):
        return c17.fresh(self.mk, self.fit)

    def question(self, sim, i):
        a = c17.Ask(sim, self.kind, self.fit, self.table, str(i))
        return 'transform', TransformQ(a.x(), a.y)

    def change(self, sim):
        f = c17.Fit(sim, self.kind, self.table if sim.flip(60, 'same-table') else c17.Table(sim, self.kind.kinds), '1')
        return f.method, lambda t: attempt(lambda: (f.run(t), None)[1])


class TransformQ:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __call__(self, t):
        x, y = copy.deepcopy(self.x), copy.deepcopy(self.y)
        return attempt(lambda: t.transform(x) if y is None else t.transform(x, y))


class WhySubject(Subject):
    def __init__(self, sim):
        for i in range(4):
            self.st = c13.settings(sim)
            self.fit = c13.Fit(sim, self.st, str(i))
            if self.make() is not None:
                break
        else:
            raise Skip('fits refused')
        self.name = 'Why.' + self.st.name

    def make(self):
        return c13.fresh(self.st, self.fit)

    def question(self, sim, i):
        a = c13.Ask(sim, self.fit.case, self.make())
        return a.what, WhyQ(a)

    def change(self, sim):
        f = c13.Fit(sim, self.st, 'again')
        if sim.flip(30, 'identify-only'):
            kw = {k: v for k, v in f.kw.items() if k in ('treatment', 'treatment_count_limit')}

            def ident(w):
                np.random.seed(3)
                return attempt(lambda: (w.identify(f.case.data.copy(), 'y', **copy.deepcopy(kw)), None)[1])
            return 'identify', ident
        return 'fit', lambda w: attempt(lambda: (f.run(w), None)[1])


class WhyQ:
    def __init__(self, ask):
        self.ask = ask

    def __call__(self, why):
        return self.ask(why)


class GraphSubject(Subject):
    name = 'CausalGraph'

    def __init__(self, sim):
        self.mg = G.random_graph(sim, 5)
        self.decl, self.how = G.declare(sim, self.mg), sim.choose(4, 'built')
        sim.note('graph', sorted((k, sorted(v)) for k, v in self.mg.parents.items()), sorted(map(sorted, self.mg.arcs)))

    def make(self):
        return G.build(self.decl, self.how)

    def question(self, sim, i):
        ns = sorted(self.mg.nodes)
        xs = set(c14.some(sim, ns))
        ys = set(c14.some(sim, ns)) - xs
        return 'relations', GraphQ(xs, ns[sim.choose(len(ns), 'node')], ys)

    def change(self, sim):
        e = None
        while e is None or e[5] or e[4] or e[2] is None:
            e = c14.edit(sim, self.mg, sorted(self.mg.nodes) + ['new1', 'new2'])
            if sim.choose(20, 'give-up') == 19:
                return 'nothing', lambda g: attempt(lambda: None)
        name, call, _, a, _, _ = e
        return name, lambda g: attempt(lambda: (call(g, copy.deepcopy(a)), None)[1])


class GraphQ:
    def __init__(self, xs, x, ys):
        self.xs, self.x, self.ys = xs, x, ys

    def __call__(self, g):
        def look():
            r = c14.read_all(g, self.xs, self.x)
            out = sorted((k, sorted(v) if isinstance(v, set) else v) for k, v in r.items())
            if self.ys:
                out.append(bool(g.is_d_separated(self.xs, self.ys, set())))
            return repr(out) + repr(c14.cg_state(g))
        return attempt(look)


class ModelSubject(Subject):
    name = 'CausalModel'

    def __init__(self, sim):
        self.a = c14.Asked(sim, G.random_graph(sim, 5))
        self.qs = c14.mixed_questions(sim, self.a.mg)
        if not self.qs:
            raise Skip('no questions')
        mg = self.a.mg
        sim.note('graph', sorted((k, sorted(v)) for k, v in mg.parents.items()), sorted(map(sorted, mg.arcs)))

    def make(self):
        return self.a.model()

    def same(self, a, b):
        return c14.same_answer(a, b)

    def question(self, sim, i):
        q = sim.pick(self.qs, 'question')
        return c14.sig_of(q), ModelQ(q, self.a.scm)

    def change(self, sim):
        ns = sorted(self.a.mg.nodes)
        if sim.flip(50, 'remove'):
            v = sim.pick(ns, 'node')
            return 'remove_nodes', lambda m: attempt(lambda: (m.causal_graph.remove_nodes([v]), None)[1])
        return 'add_arc', lambda m: attempt(lambda: (m.causal_graph.add_edges_from([(ns[0], ns[-1])], observed=False), None)[1])


class ModelQ:
    def __init__(self, q, scm):
        self.q, self.scm = q, scm

    def __call__(self, cm):
        return c04.ask(cm.causal_graph, copy.deepcopy(self.q), self.scm, cm)


class NetSubject(Subject):
    name = 'BayesianNetwork'

    def __init__(self, sim):
        self.w = B.BNWorld(sim)
        self.ops = [B.fit_op(sim, self.w)] + [B.do_op(sim, self.w)] * sim.flip(40, 'do')
        if self.make() is None:
            raise Skip('fit refused')

    def same(self, a, b):
        return outcome_same(a, b, rtol=1e-5, atol=1e-6)

    def make(self):
        n = self.w.net()
        for o in self.ops:
            if not o(n).ok:
                return None
        return n

    def question(self, sim, i):
        op = B.query_op(sim, self.w)
        return op.name, op

    def change(self, sim):
        op = (B.fit_op if sim.flip(60, 'fit') else B.do_op)(sim, self.w)
        return op.name, op


def saved(sim, subj):
    sim.mark(subj.name)
    qs = [subj.question(sim, i) for i in range(sim.between(2, 3, 'queries'))]
    alone = [q(subj.make()) for _, q in qs]
    obj = subj.make()
    for i in range(sim.choose(3, 'before')):
        sim.pick(qs, 'which')[1](obj)
    how = ['pickle', 'deepcopy', 'pickle-other-process', 'pickle-twice'][sim.weighted([4, 4, 2, 1], 'how')]
    if how == 'pickle-other-process' and not peers.count():
        how = 'pickle'
    sig = f'{subj.name}.{how}'
    sim.mark(how)
    sim.note('how', how, subj.name)
    try:
        if how == 'deepcopy':
            other = copy.deepcopy(obj)
        else:
            blob = pickle.dumps(obj, protocol=sim.between(2, 5, 'protocol'))
            other = None if how == 'pickle-other-process' else pickle.loads(blob)
            if how == 'pickle-twice':
                other = pickle.loads(pickle.dumps(other))
    except Exception as e:
        raise Violation('cannot-save', sig, f'{type(e).__name__}: {e}')

    def shown(a):
        return str(a)[:300]
    if how == 'pickle-other-process':
        sim.fault('restart-in-new-process')
        for (nm, q), a, b in zip(qs, alone, peers.call(sim.choose(peers.count(), 'peer'), 'remote_answers', blob, [q for _, q in qs])):
            sim.note('query', nm)
            if not subj.same(a, b):
                raise Violation('restored-differs', f'{sig}.{nm}', f'{nm}: original {shown(a)}; restored in a new process {shown(b)}')
        for (nm, q), a in zip(qs, alone):
            if not subj.same(a, q(obj)):
                raise Violation('original-changed', f'{sig}.{nm}', f'{nm} after saving: {shown(q(obj))}; before {shown(a)}')
        return
    sim.fault('restore-' + how)
    sides = {'original': obj, 'restored': other}
    altered = None
    for step in range(sim.between(2, 5, 'steps')):
        i, side = sim.choose(len(qs), 'which-query'), ['restored', 'original'][sim.choose(2, 'side')]
        nm, q = qs[i]
        if side != altered:
            b = q(sides[side])
            sim.note('query', side, nm)
            sim.mark(side, nm, altered)
            sim.count('answers')
            if not subj.same(alone[i], b):
                raise Violation('restored-differs' if altered is None else 'copies-not-independent', f'{sig}.{nm}',
                                f'{nm} on the {side} object: {shown(b)}; expected {shown(alone[i])}; altered side: {altered}')
        if altered is None and sim.flip(45, 'alter-one-side'):
            altered = ['restored', 'original'][sim.choose(2, 'side')]
            what, change = subj.change(sim)
            o = change(sides[altered])
            fresh = subj.make()
            of = change(fresh)
            sim.note('alter', altered, what, o.ok)
            sim.fault('alter-' + altered)
            if o.ok != of.ok:
                raise Violation('change-outcome', f'{sig}.{what}', f'{what} on the {altered} object: {o}; on a new one: {of}')
            if o.ok:
                for nm, q in qs:
                    a, b = q(fresh), q(sides[altered])
                    if not subj.same(a, b):
                        raise Violation('altered-differs', f'{sig}.{nm}', f'{nm} after {what} of the {altered}: {shown(b)}; new object {shown(a)}')


def transformers(sim):
    saved(sim, TransformerSubject(sim))


def why(sim):
    saved(sim, WhySubject(sim))


def graphs(sim):
    saved(sim, GraphSubject(sim) if sim.flip(50, 'graph-only') else ModelSubject(sim))


def networks(sim):
    saved(sim, NetSubject(sim))


SCENARIOS = [('restored', restored, 6), ('transformers', transformers, 2), ('why', why, 3), ('graphs', graphs, 2), ('networks', networks, 2)]
RUN_TIMEOUT = 120
