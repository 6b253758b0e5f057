"""Mixed graphs: an independent model (plain sets), its graphical criteria, and exact probabilities of small structural models."""
import itertools

import numpy as np
from ylearn.causal_model import CausalGraph

from dst.core import Violation

NAMES = [
    list('abcdefg'),
    ['age', 'income', 'sex', 'drug', 'heart', 'job', 'zip'],
    ['X', 'Y', 'Z', 'W', 'M', 'T', 'V'],
    ['U0', 'U1', 'x', 'y', 'U2', 'n', '0'],
    ['x1', 'x10', 'x', 'x11', 'x1x', '1', 'x0'],
    ['treatment', 'outcome', 'c_1', 'c_2', 'mediator', 'n', 'iv'],
]


class MG:
    """nodes; parents: node -> set; arcs: set of frozenset pairs"""

    def __init__(self, parents, arcs=()):
        self.parents = {k: set(v) for k, v in parents.items()}
        self.arcs = {frozenset(a) for a in arcs}

    def copy(self):
        return MG(self.parents, self.arcs)

    def __eq__(self, o):
        return self.parents == o.parents and self.arcs == o.arcs

    @property
    def nodes(self):
        return set(self.parents)

    def edges(self):
        return {(p, c) for c, ps in self.parents.items() for p in ps}

    def children(self, v):
        return {c for c, ps in self.parents.items() if v in ps}

    def anc(self, xs, parents=None):
        parents = self.parents if parents is None else parents
        out, todo = set(), list(xs)
        while todo:
            v = todo.pop()
            if v not in out:
                out.add(v)
                todo.extend(parents[v])
        return out

    def desc(self, xs):
        out, todo = set(), list(xs)
        while todo:
            v = todo.pop()
            if v not in out:
                out.add(v)
                todo.extend(self.children(v))
        return out

    def districts(self, within=None):
        left, out = set(self.nodes if within is None else within), []
        while left:
            comp, todo = set(), [next(iter(left))]
            while todo:
                v = todo.pop()
                if v in left:
                    left.discard(v)
                    comp.add(v)
                    todo.extend(w for a in self.arcs if v in a for w in a)
            out.append(comp)
        return out

    def sub(self, nodes):
        nodes = set(nodes)
        return MG({k: v & nodes for k, v in self.parents.items() if k in nodes}, [a for a in self.arcs if a <= nodes])

    def no_out(self, xs):
        return MG({k: v - set(xs) for k, v in self.parents.items()}, self.arcs)

    def no_in(self, xs):
        xs = set(xs)
        return MG({k: (set() if k in xs else v) for k, v in self.parents.items()}, [a for a in self.arcs if not a & xs])

    def explicit(self):
        """parents with one latent parent object per arc"""
        par = {k: set(v) for k, v in self.parents.items()}
        for a in self.arcs:
            par[a] = set()
            for v in a:
                par[v].add(a)
        return par

    def dsep(self, xs, ys, zs):
        """moralised ancestral graph"""
        par = self.explicit()
        keep = self.anc(set(xs) | set(ys) | set(zs), par)
        adj = {v: set() for v in keep}
        for v in keep:
            ps = par[v] & keep
            for p in ps:
                adj[v].add(p)
                adj[p].add(v)
            for p, q in itertools.combinations(ps, 2):
                adj[p].add(q)
                adj[q].add(p)
        seen, todo = set(), [x for x in xs if x not in zs]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            todo.extend(w for w in adj[v] if w not in zs)
        return not seen & set(ys)

    # ---- criteria ------------------------------------------------------------------------------
    def backdoor(self, xs, ys, zs):
        xs, ys, zs = set(xs), set(ys), set(zs)
        if zs & (self.desc(xs) | xs | ys):
            return False
        return self.no_out(xs).dsep(xs, ys, zs)

    def backdoor_paths(self, x, y):
        """[(simple path with an arrow into x, is it free of colliders)]"""
        par = self.explicit()
        ch = {v: {c for c in par if v in par[c]} for v in par}
        out = []

        def walk(path, open_):
            v = path[-1]
            if v == y:
                out.append((tuple(path), open_))
                return
            for w in par[v] | ch[v]:
                if w in path or (len(path) == 1 and w not in par[v]):
                    continue
                coll = len(path) > 1 and path[-2] in par[v] and w in par[v]
                walk(path + [w], open_ and not coll)
        walk([x], True)
        return [(p, o) for p, o in out if len(p) > 2]

    def subsets(self, pool):
        pool = sorted(pool)
        for r in range(len(pool) + 1):
            for c in itertools.combinations(pool, r):
                yield set(c)

    def backdoor_sets(self, xs, ys):
        pool = self.nodes - set(xs) - set(ys) - self.desc(xs)
        return [z for z in self.subsets(pool) if self.backdoor(xs, ys, z)]

    def frontdoor(self, x, y, zs):
        zs = set(zs)
        if zs & {x, y}:
            return False
        # every directed path from x to y meets zs
        seen, todo = set(), [x]
        while todo:
            v = todo.pop()
            if v in seen or v in zs:
                continue
            seen.add(v)
            todo.extend(self.children(v))
        if y in seen:
            return False
        if zs and not self.no_out([x]).dsep({x}, zs, set()):
            return False
        if x in self.desc(zs):
            return False
        return not zs or self.no_out(zs).dsep(zs, {y}, {x})

    def frontdoor_sets(self, x, y):
        """subsets of the nodes on directed paths from x to y"""
        pool = (self.desc([x]) & self.anc([y])) - {x, y}
        return [z for z in self.subsets(pool) if self.frontdoor(x, y, z)]

    def instruments(self, x, y):
        g = self.no_in([x])
        return {z for z in self.parents[x] if z != y and g.dsep({z}, {y}, set())}

    def identifiable(self, xs, ys):
        """Tian's algorithm (complete: Huang and Valtorta 2006)"""
        xs, ys = set(xs), set(ys)
        rest = self.sub(self.nodes - xs)
        d = rest.anc(ys)
        for c in self.sub(d).districts():
            t = next(t for t in self.districts() if c <= t)
            while True:
                g = self.sub(t)
                a = g.anc(c)
                if a == c:
                    break
                if a == t:
                    return False
                t = next(s for s in self.sub(a).districts() if c <= s)
        return True

    def topo(self):
        out, left = [], {k: set(v) for k, v in self.parents.items()}
        while left:
            v = min(k for k in left if not left[k] & set(left))
            out.append(v)
            del left[v]
        return out


def random_graph(sim, max_nodes=6, arcs=True, names=None):
    n = sim.between(2, max_nodes, 'nodes')
    pool = sim.pick(NAMES, 'names') if names is None else names
    order = sim.shuffled(pool, 'topological')[:n]
    dens = sim.pick([25, 45, 65, 85], 'density')
    par = {v: [] for v in order}
    for i in range(n):
        for j in range(i):
            if sim.flip(dens, 'edge'):
                par[order[i]].append(order[j])
    lat = []
    if arcs:
        want = sim.weighted([2, 3, 3, 2, 1], 'arcs')
        pairs = list(itertools.combinations(order, 2))
        for _ in range(want):
            p = sim.pick(pairs, 'arc')
            if frozenset(p) not in [frozenset(q) for q in lat]:
                lat.append(p)
    return MG(par, lat)


def declare(sim, g, label='declare'):
    """one way of writing the graph down: (causation items in order, arcs in order)"""
    items = [(v, sim.shuffled(sorted(g.parents[v]), label)) for v in sim.shuffled(sorted(g.parents), label)]
    arcs = []
    for a in sim.shuffled(sorted(map(sorted, g.arcs)), label):
        arcs.append(tuple(a if not sim.flip(50, label) else a[::-1]))
    return items, arcs


def build(decl, how=0):
    """CausalGraph from a declaration; `how` selects the way it is put together"""
    try:
        return _build(decl, how)
    except Exception as e:
        raise Violation('cannot-build', f'way{how}', f'{decl}: {type(e).__name__}: {e}')


def _build(decl, how):
    items, arcs = decl
    if how == 0:
        return CausalGraph(dict((k, list(v)) for k, v in items), latent_confounding_arcs=list(arcs) if arcs else None)
    if how == 1:
        g = CausalGraph({})
        g.add_nodes([k for k, _ in items])
        g.add_edges_from([(p, k) for k, v in items for p in v])
        if arcs:
            g.add_edges_from(list(arcs), observed=False)
        return g
    if how == 2:
        g = CausalGraph({items[0][0]: []})
        g = g.add_nodes([k for k, _ in items[1:]], new=True)
        for k, v in items:
            for p in v:
                g.add_edge(p, k)
        for a in arcs:
            g.add_edge(*a, observed=False)
        return g
    g = CausalGraph(dict((k, list(v)) for k, v in items))
    if arcs:
        g = g.add_edges_from(list(arcs), new=True, observed=False)
    return g


def read(cg):
    """what a CausalGraph says it is, as an MG; also checks its two records against each other"""
    par = {k: list(v) for k, v in cg.causation.items()}
    return MG(par, [a for a in cg.latent_confounding_arcs])


# ---- exact probabilities ---------------------------------------------------------------------------
class SCM:
    """binary variables, one binary latent variable per arc, random positive tables"""

    def __init__(self, g, rng):
        self.g, self.vars = g, sorted(g.nodes)
        self.ax = {v: i for i, v in enumerate(self.vars)}
        self.lat = sorted(map(sorted, g.arcs))
        self.lp = [rng.uniform(.25, .75) for _ in self.lat]
        self.tab = {}
        for v in self.vars:
            ps = sorted(g.parents[v])
            ls = [i for i, a in enumerate(self.lat) if v in a]
            self.tab[v] = (ps, ls, rng.uniform(.1, .9, size=(2,) * (len(ps) + len(ls))))
        self._joint = None

    def table(self, do=()):
        """array over vars (axis per variable): P(v) with the mechanisms of `do` removed"""
        n, m = len(self.vars), len(self.lat)
        full = np.ones((2,) * (n + m))
        idx = np.indices(full.shape)
        for j, p in enumerate(self.lp):
            full = full * np.where(idx[n + j] == 1, p, 1 - p)
        for v in self.vars:
            if v in do:
                continue
            ps, ls, t = self.tab[v]
            key = tuple(idx[self.ax[p]] for p in ps) + tuple(idx[n + j] for j in ls)
            p1 = t[key] if key else t
            full = full * np.where(idx[self.ax[v]] == 1, p1, 1 - p1)
        return full.sum(axis=tuple(range(n, n + m))) if m else full

    @property
    def joint(self):
        if self._joint is None:
            self._joint = self.table()
        return self._joint

    def effect(self, xs, ys):
        """P(ys | do(xs)) as an array that has size 1 on all other axes"""
        t = self.table(do=set(xs))
        axes = tuple(self.ax[v] for v in self.vars if v not in xs and v not in ys)
        return t.sum(axis=axes, keepdims=True)

    def cond(self, a, b):
        a, b = set(a), set(b)
        assert a and not a & b
        j = self.joint.sum(axis=tuple(self.ax[v] for v in self.vars if v not in a | b), keepdims=True)
        if not b:
            return j
        return j / self.joint.sum(axis=tuple(self.ax[v] for v in self.vars if v not in b), keepdims=True)

    def value(self, p):
        """value of a ylearn Prob expression"""
        out = np.ones((1,) * len(self.vars))
        if p.variables:
            out = out * self.cond(p.variables, p.conditional)
        for q in p.product:
            out = out * self.value(q)
        for q in p.divisor:
            out = out / self.value(q)
        if p.marginal:
            axes = tuple(self.ax[v] for v in p.marginal)
            shape = list(out.shape)
            for i in axes:
                shape[i] = 2
            out = np.broadcast_to(out, shape).sum(axis=axes, keepdims=True)
        return out
