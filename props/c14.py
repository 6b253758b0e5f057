"""C14: graph and causal-model operations never alter the graph or each other."""
import copy

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression
from ylearn.causal_model import CausalGraph, CausalModel
from ylearn.estimator_model import SLearner

from dst import sched
from dst.core import Violation, attempt, outcome_same
from dst.tracer import choose_crash, crash_at, record_lines
from . import c04, graphs as G
from . import snap as S

RULE = ('One run: (edits) a pool of causal graphs edited in place and into new graphs in a seeded order, each mirrored by a plain-set '
        'model; (queries) one causal model asked a seeded history or thread interleaving of identification queries, some raising, some '
        'interrupted at a chosen line, each compared with a new model on a new graph.')
REAL = ['ylearn.causal_model (graph, model, prob, utils)', 'networkx', 'SLearner for CausalModel.estimate']
STUB = ['thread scheduling (line level)']
ASSUMPTIONS = ['two threads do not edit one graph in place at the same time']
QUICK_S = 60


def cg_state(cg):
    """everything a CausalGraph holds, by value (order left out)"""
    return (('causation', tuple(sorted((k, tuple(sorted(v))) for k, v in cg.causation.items()))),
            ('nodes', tuple(sorted((str(n), S.snap(dict(d))) for n, d in cg.dag.nodes(data=True)))),
            ('edges', tuple(sorted((str(a), str(b), str(k), repr(d)) for a, b, k, d in cg.dag.edges(keys=True, data=True)))))


def check_graph(cg, mg, sig, what):
    """the graph, by each of its own records, is exactly the model graph"""
    try:
        _check_graph(cg, mg, sig, what)
    except Violation:
        raise
    except Exception as e:
        raise Violation('graph-query-failed', sig, f'{what}: {type(e).__name__}: {e}')


def _check_graph(cg, mg, sig, what):
    par = {k: set(v) for k, v in cg.causation.items()}
    dup = [k for k, v in cg.causation.items() if len(v) != len(set(v))]
    if par != mg.parents or dup:
        raise Violation('graph-wrong', sig, f'{what}: causation {dict(cg.causation)}, expected {mg.parents}')
    if set(cg.dag.nodes) != mg.nodes or set(cg.ava_nodes) != mg.nodes:
        raise Violation('graph-wrong', sig, f'{what}: nodes {sorted(cg.dag.nodes)} / {sorted(cg.ava_nodes)}, expected {sorted(mg.nodes)}')
    obs = sorted((a, b) for a, b, k in cg.dag.edges(keys=True) if k == 0)
    if obs != sorted(mg.edges()):
        raise Violation('graph-wrong', sig, f'{what}: observed edges {obs}, expected {sorted(mg.edges())}')
    arcs = {frozenset(a) for a in cg.latent_confounding_arcs}
    raw = sorted((a, b) for a, b, k in cg.dag.edges(keys=True) if k == 'n')
    if arcs != mg.arcs or raw != sorted((x, y) for a in mg.arcs for x in a for y in a if x != y):
        raise Violation('graph-wrong', sig, f'{what}: arcs {sorted(map(sorted, arcs))}, edges {raw}; expected {sorted(map(sorted, mg.arcs))}')


def legal_edges(mg):
    return [(a, b) for a in sorted(mg.nodes) for b in sorted(mg.nodes) if a != b and a not in mg.desc([b]) and a not in mg.parents[b]]


def pairs(mg):
    ns = sorted(mg.nodes)
    return [(a, b) for i, a in enumerate(ns) for b in ns[i + 1:]]


def some(sim, seq, most=2):
    return sim.shuffled(seq, 'which')[:sim.between(1, most, 'how-many')]


def edit(sim, mg, pool):
    """(name, call on a CausalGraph, effect on a model graph, arguments, raises?) - calls take new="""
    nodes = sorted(mg.nodes)
    k = sim.choose(11, 'edit')
    spare = [v for v in pool if v not in mg.nodes]
    new = sim.flip(60, 'new')
    form = sim.pick([list, tuple], 'form')
    if k == 0 and spare:
        a = form(some(sim, spare) + (some(sim, nodes, 1) if nodes and sim.flip(30, 'known-too') else []))
        return 'add_nodes', lambda g, a: g.add_nodes(a, new=new), lambda m: [m.parents.setdefault(v, set()) for v in a], a, new, False
    if k == 1 and legal_edges(mg):
        es, m2 = [], mg.copy()
        for _ in range(sim.between(1, 2, 'n')):
            le = legal_edges(m2)
            if le:
                e = sim.pick(le, 'edge')
                m2.parents[e[1]].add(e[0])
                es.append(e)
        if sim.flip(20, 'known-too') and mg.edges():
            es.append(sim.pick(sorted(mg.edges()), 'edge'))
        if spare and nodes and sim.flip(20, 'to-new-node'):
            es.append((sim.pick(nodes, 'from'), spare[0]))
        a = form(es)

        def eff(m):
            for p, c in a:
                m.parents.setdefault(p, set())
                m.parents.setdefault(c, set()).add(p)
        return 'add_edges_from', lambda g, a: g.add_edges_from(a, new=new), eff, a, new, False
    if k == 2 and pairs(mg):
        a = form([p if not sim.flip(50, 'turn') else p[::-1] for p in some(sim, pairs(mg))])
        return ('add_arcs', lambda g, a: g.add_edges_from(a, new=new, observed=False),
                lambda m: m.arcs.update(frozenset(e) for e in a), a, new, False)
    if k == 3:
        if sim.flip(50, 'arc') and pairs(mg):
            a = sim.pick(pairs(mg), 'arc')
            return 'add_edge-arc', lambda g, a: g.add_edge(*a, observed=False), lambda m: m.arcs.add(frozenset(a)), a, False, False
        if legal_edges(mg):
            a = sim.pick(legal_edges(mg), 'edge')
            return 'add_edge', lambda g, a: g.add_edge(*a), lambda m: m.parents[a[1]].add(a[0]), a, False, False
    if k == 4 and len(nodes) > 1:
        a = some(sim, nodes)
        a = set(a) if sim.flip(50, 'set') else form(a)

        def eff(m):
            m2 = m.sub(m.nodes - set(a))
            m.parents, m.arcs = m2.parents, m2.arcs
        return 'remove_nodes', lambda g, a: g.remove_nodes(a, new=new), eff, a, new, False
    if k == 5 and mg.edges():
        a = sim.pick(sorted(mg.edges()), 'edge')
        return 'remove_edge', lambda g, a: g.remove_edge(a), lambda m: m.parents[a[1]].discard(a[0]), a, False, False
    if k == 6 and mg.edges():
        a = form(some(sim, sorted(mg.edges())))
        return ('remove_edges_from', lambda g, a: g.remove_edges_from(a, new=new),
                lambda m: [m.parents[c].discard(p) for p, c in a], a, new, False)
    if k == 7 and mg.arcs:
        a = [tuple(p) if not sim.flip(50, 'turn') else tuple(p[::-1]) for p in some(sim, sorted(map(sorted, mg.arcs)))]
        if sim.flip(50, 'one'):
            a = a[0]
            return 'remove_edge-arc', lambda g, a: g.remove_edge(a, observed=False), lambda m: m.arcs.discard(frozenset(a)), a, False, False
        return ('remove_arcs', lambda g, a: g.remove_edges_from(a, new=new, observed=False),
                lambda m: [m.arcs.discard(frozenset(e)) for e in a], a, new, False)
    if k == 8 and nodes:
        a = some(sim, nodes, 3)
        a = set(a) if sim.flip(50, 'set') else form(a)

        def eff(m):
            m2 = m.sub(set(a))
            m.parents, m.arcs = m2.parents, m2.arcs
        return 'build_sub_graph', lambda g, a: g.build_sub_graph(a), eff, a, True, False
    if k == 9 and nodes:
        a = some(sim, nodes)
        a = set(a) if sim.flip(50, 'set') else form(a)
        inc = sim.flip(50, 'incoming')

        def eff(m):
            m2 = m.no_in(a) if inc else m.no_out(a)
            m.parents, m.arcs = m2.parents, m2.arcs
        return ('remove_incoming_edges' if inc else 'remove_outgoing_edges',
                lambda g, a: (g.remove_incoming_edges if inc else g.remove_outgoing_edges)(a, new=new), eff, a, new, False)
    # calls that must raise or do nothing
    if nodes:
        b = sim.choose(3, 'bad')
        if b == 0:
            return 'sub-of-unknown', lambda g, a: g.build_sub_graph(a), None, [nodes[0], 'no such node'], True, True
        if b == 1:
            return 'in-of-unknown', lambda g, a: g.remove_incoming_edges(a, new=True), None, ['no such node'], True, True
        return ('remove-missing', lambda g, a: g.remove_edges_from(a, new=True), None, [(nodes[0], nodes[0])], True, True)
    return None


def read_all(cg, xs, x):
    return dict(
        ancestors=set(cg.ancestors(xs)), descendents=set(cg.descendents(xs)), parents=set(cg.parents(x)),
        all_parents=len(cg.parents(x, only_observed=False)), components=sorted(map(sorted, cg.c_components)), dag=bool(cg.is_dag),
        adj=np.asarray(cg.to_adj_matrix()).sum(), prob=set(cg.prob.variables), topo=set(cg.topo_order), text=bool(repr(cg)))


def reads(sim, cg, mg, sig):
    """look at the graph in every way; also lets later reads see a changed graph"""
    ns = sorted(mg.nodes)
    if not ns:
        return
    xs = set(some(sim, ns))
    x = ns[sim.choose(len(ns), 'node')]
    ys = set(some(sim, ns)) - xs
    zs = set(sim.shuffled(ns, 'z')[:sim.choose(3, 'nz')]) - xs - ys
    try:
        got = read_all(cg, xs, x)
        if ys:
            got['dsep'] = bool(cg.is_d_separated(xs, ys, zs))
    except Exception as e:
        raise Violation('graph-query-failed', sig, f'({xs},{x},{ys},{zs}) on {mg.parents} {mg.arcs}: {type(e).__name__}: {e}')
    want = dict(
        ancestors=mg.anc(xs), descendents=mg.desc(xs), parents=mg.parents[x],
        all_parents=len(mg.parents[x]) + sum(x in a for a in mg.arcs), components=sorted(map(sorted, mg.districts())), dag=True,
        adj=len(mg.edges()) + 2 * len(mg.arcs), prob=mg.nodes, topo=mg.nodes, text=True)
    if ys:
        want['dsep'] = mg.dsep(xs, ys, zs)
    for k in want:
        if got[k] != want[k]:
            raise Violation('graph-answer-wrong', f'{sig}.{k}', f'{k}({xs},{x},{ys},{zs}) = {got[k]}, expected {want[k]} for {mg.parents} {mg.arcs}')
    # what a read hands out is the caller's to change
    for lst in (cg.parents(x), cg.ancestors(xs), cg.descendents(xs)):
        lst.clear()
    cg.prob.variables.clear()
    cg.observed_dag.remove_node(x)
    cg.explicit_unob_var_dag.clear()


def edits(sim):
    names = sim.pick(G.NAMES, 'names')
    start = G.random_graph(sim, 5, names=names)
    decl = G.declare(sim, start)
    items = dict((k, list(v)) for k, v in decl[0])
    arcs = list(decl[1])
    cg = CausalGraph(items, latent_confounding_arcs=arcs)
    before = S.snap((items, arcs))
    live = [(cg, start)]
    check_graph(cg, start, 'new', 'new graph')
    for step in range(sim.between(3, 9, 'steps')):
        i = sim.choose(len(live), 'graph')
        cg, mg = live[i]
        act = sim.weighted([7, 2, 1, 1], 'act')
        if act == 1:
            reads(sim, cg, mg, 'read')
            sig, what = 'read', 'reading'
        elif act == 2:
            other = [copy.deepcopy, copy.copy, lambda g: CausalGraph(g.causation, g.dag)][sim.choose(2, 'copy') * 2](cg)
            live.append((other, mg.copy()))
            sig, what = 'copy', 'copying'
        elif act == 3:
            # the caller goes on using what it passed in
            for v in items.values():
                v.append('later')
            items['later'] = []
            arcs.append(('later', 'later2'))
            before = S.snap((items, arcs))
            sig, what = 'caller', 'caller changing its own dict'
        else:
            e = edit(sim, mg, names)
            if e is None:
                continue
            sig, call, eff, args, new, bad = e
            keep = S.snap(args)
            what = f'{sig}({args}, new={new})'
            state = cg_state(cg)
            fired = False
            res = {}
            if new and sim.flip(15, 'interrupt'):
                twin = G.build(G.declare(sim, mg))
                _, sites, _ = record_lines(lambda: attempt(lambda: (call(twin, copy.deepcopy(args)), None)[1]))
                cp = choose_crash(sim, sites)
                if cp is not None:
                    site, occ, nm, exc = cp
                    _, fired = crash_at(lambda: attempt(lambda: res.update(g=call(cg, args))), site, occ, exc)
                    if fired:
                        sim.fault('line-' + nm)
            else:
                o = attempt(lambda: res.update(g=call(cg, args)))
                if o.ok == bad:
                    raise Violation('edit-failed' if not bad else 'bad-edit-accepted', sig, f'{what}: {o}')
            if S.snap(args) != keep:
                raise Violation('arguments-changed', sig, f'{what}: now {args}')
            if new or bad:
                if cg_state(cg) != state:
                    raise Violation('graph-changed', sig, f'{what}: {S.where(state, cg_state(cg))}')
                if not fired and not bad:
                    m2 = mg.copy()
                    eff(m2)
                    g2 = res['g']
                    if not isinstance(g2, CausalGraph) or g2 is cg:
                        raise Violation('no-new-graph', sig, f'{what} returned {g2!r}')
                    live.append((g2, m2))
            else:
                m2 = mg.copy()
                eff(m2)
                live[i] = (cg, m2)
            sim.mark(sig, new, len(mg.nodes), fired)
        sim.note(step, i, what)
        for g, m in live:
            check_graph(g, m, sig, f'after {what}')
        if S.snap((items, arcs)) != before:
            raise Violation('arguments-changed', 'new', f'dict given to CausalGraph after {what}: {items}')


BAD = [('backdoor', 'no such node', 'x', 'simple'), ('frontdoor', 'no such node', 'x', 'all'), ('iv', 'no such node', 'x', None)]


def frame(sim, mg):
    rng = sim.nprng('data')
    cols = {}
    for v in mg.topo():
        cols[v] = sum((rng.uniform(.5, 2) * cols[p] for p in sorted(mg.parents[v])), 0) + rng.normal(size=30)
    return pd.DataFrame({v: cols[v] for v in sorted(cols)})


def mixed_questions(sim, mg):
    out = []
    for _ in range(sim.between(1, 2, 'themes')):
        xs, ys, qs = c04.questions(sim, mg)
        out += [q for q, _, _ in qs]
    if sim.flip(40, 'bad-query'):
        op, x, _, e = sim.pick(BAD, 'bad')
        out.append((op, x, sorted(mg.nodes)[0], e))
        if sim.flip(30, 'style'):
            v = sorted(mg.nodes)
            out.append((sim.pick(['backdoor', 'frontdoor'], 'op'), v[0], v[-1], 'no such style'))
    return sim.shuffled(out, 'queries')


def same_answer(a, b):
    if a[0] in ('assert', 'raise', 'not-identified') and b[0] in ('assert', 'raise', 'not-identified'):
        return a[0] == b[0]
    return c04.agree(a, b)


class Always:
    """choices of an edit, always in place"""

    def __init__(self, sim):
        self.sim = sim

    def __getattr__(self, k):
        return getattr(self.sim, k)

    def flip(self, pct, tag):
        return False if tag == 'new' else self.sim.flip(pct, tag)


class Asked:
    def __init__(self, sim, mg):
        self.mg, self.decl, self.how = mg, G.declare(sim, mg), sim.choose(4, 'built')
        self.scm = G.SCM(mg, sim.nprng('tables'))
        self.data = frame(sim, mg)
        self.cm = self.model()
        self.state = cg_state(self.cm.causal_graph)
        self.data_snap = S.snap(self.data)

    def model(self):
        return CausalModel(causal_graph=G.build(self.decl, self.how), data=self.data)

    def alone(self, q):
        cm = self.model()
        return c04.ask(cm.causal_graph, copy.deepcopy(q), self.scm, cm)

    def ask(self, q):
        return c04.ask(self.cm.causal_graph, q, self.scm, self.cm)

    def edited(self, sim):
        """the owner of the graph edits it in place between two questions"""
        mg = self.mg.copy()
        if sim.flip(50, 'arc'):
            a = sim.pick(pairs(mg), 'arc')
            if frozenset(a) in mg.arcs:
                e = 'remove_edge-arc', lambda g, a: g.remove_edge(a, observed=False), lambda m: m.arcs.discard(frozenset(a)), a, False, False
            else:
                e = 'add_edge-arc', lambda g, a: g.add_edge(*a, observed=False), lambda m: m.arcs.add(frozenset(a)), a, False, False
        else:
            e = edit(Always(sim), mg, sorted(mg.nodes))
        if e is None or e[4] or e[5]:
            return None
        sig, call, eff, args, new, bad = e
        eff(mg)
        if len(mg.nodes) < 2:
            return None
        call(self.cm.causal_graph, args)
        self.mg, self.decl = mg, G.declare(sim, mg)
        self.scm = G.SCM(mg, sim.nprng('tables'))
        self.state = cg_state(self.cm.causal_graph)
        return f'{sig}({args})'

    def check_still(self, sig, what):
        st = cg_state(self.cm.causal_graph)
        if st != self.state:
            raise Violation('graph-changed', sig, f'{what}: {S.where(self.state, st)}')
        if S.snap(self.data) != self.data_snap:
            raise Violation('data-changed', sig, f'{what}: columns now {list(self.data.columns)}')


def sig_of(q):
    m = q[3]
    return '.'.join([q[0]] + ([m] if isinstance(m, str) else [str(m[0]), str(m[1])] if isinstance(m, tuple) else []))


def do_estimate(cm, x, y, explicit):
    kw = dict(treatment=x, outcome=y) if explicit else {}
    est = SLearner(model=LinearRegression())
    return attempt(lambda: cm.estimate(est, **kw))


def history(sim):
    mg = G.random_graph(sim, 5)
    a = Asked(sim, mg)
    qs = mixed_questions(sim, mg)
    if not qs:
        return
    sim.note('graph', sorted((k, sorted(v)) for k, v in mg.parents.items()), sorted(map(sorted, mg.arcs)))
    alone = [a.alone(q) for q in qs]
    last_i = 99
    last = None                       # the last identify call; estimate builds on it
    for step in range(sim.between(2, 7, 'steps')):
        fresh = False
        if step and sim.flip(30, 'owner-edits'):
            nodes = a.mg.nodes
            what = a.edited(sim)
            if what:
                sim.note(step, 'edited', what)
                mg, last, fresh = a.mg, 'unknown', True
                if mg.nodes != nodes or sim.flip(30, 'other-questions'):
                    qs = mixed_questions(sim, mg)
                if not qs:
                    return
                alone = [a.alone(q) for q in qs]
        i = last_i if last_i < len(qs) and sim.flip(80 if fresh else 20, 'again') else sim.choose(len(qs), 'query')
        q, last_i = qs[i], i
        keep = S.snap(q)
        f = sim.weighted([7, 2, 1, 3], 'how')
        if f == 2:
            _, sites, _ = record_lines(lambda: attempt(lambda: a.alone(q) and None))
            cp = choose_crash(sim, sites)
            if cp is None:
                continue
            site, occ, nm, exc = cp
            _, fired = crash_at(lambda: attempt(lambda: a.ask(q) and None), site, occ, exc)
            if fired:
                sim.fault('line-' + nm)
            if q[0] == 'identify':
                last = 'unknown'
            what = f'interrupted {q}'
        elif f == 3 and last != 'unknown' and len(mg.nodes) > 1:
            ps = [(x, y) for x in sorted(mg.nodes) for y in sorted(mg.nodes) if x != y and any(mg.backdoor_sets([x], [y]))]
            if not ps:
                continue
            x, y = sim.pick(ps, 'x-y')
            if isinstance(last, tuple) and sim.flip(40, 'as-identified'):
                x, y = last[1], last[2]
            explicit = last is None or sim.flip(60, 'explicit')
            got = do_estimate(a.cm, x, y, explicit)
            other = a.model()
            if last is not None:
                c04.ask(other.causal_graph, copy.deepcopy(last), None, other)
            want = do_estimate(other, x, y, explicit)
            what = f'estimate({x},{y}) after {last}'
            sim.note(step, what, got.ok)
            if not outcome_same(got, want):
                raise Violation('answer-differs', 'estimate', f'{what} explicit={explicit}: {got}; on a new model {want}')
        else:
            got = a.ask(q)
            if q[0] == 'identify':
                last = q
            what = f'{q}'
            sim.note(step, what, got[0], got[1])
            if not same_answer(alone[i], got):
                raise Violation('answer-differs', sig_of(q), f'{q}: {got[:2]}; on a new model {alone[i][:2]}')
        sim.mark(f, q[0], alone[i][0])
        if S.snap(q) != keep:
            raise Violation('arguments-changed', sig_of(q), f'now {q}')
        a.check_still(sig_of(q), what)


def threads(sim):
    mg = G.random_graph(sim, 4)
    a = Asked(sim, mg)
    qs = mixed_questions(sim, mg)[:sim.between(2, 4, 'n')]
    if len(qs) < 2:
        return
    nt = min(sim.between(2, 3, 'threads'), len(qs))
    alone = [a.alone(q) for q in qs]
    got = [None] * len(qs)
    keep = S.snap(qs)

    def worker(t):
        def go():
            for j in range(t, len(qs), nt):
                got[j] = a.ask(qs[j])
        return go
    for t, (_, exc) in enumerate(sched.run_threads(sim, [worker(t) for t in range(nt)])):
        if exc is not None:
            raise exc
    for q, x, y in zip(qs, alone, got):
        sim.note(q, y[0], y[1])
        sim.mark(q[0], y[0])
        if not same_answer(x, y):
            raise Violation('answer-differs', f'threads.{sig_of(q)}', f'{q} asked while other threads ask {qs}: {y[:2]}; alone {x[:2]}')
    if S.snap(qs) != keep:
        raise Violation('arguments-changed', 'threads', f'now {qs}')
    a.check_still('threads', f'{qs}')


SCENARIOS = [('edits', edits, 4), ('history', history, 5), ('threads', threads, 3)]
