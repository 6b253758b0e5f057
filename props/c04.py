"""C04: identification answers are valid and do not depend on iteration order."""
import numpy as np
from ylearn.causal_model import CausalModel
from ylearn.causal_model.utils import IdentificationError

from dst import peers
from dst.core import Violation
from . import graphs as G

HASHSEEDS = [1, 2, 3]
RULE = ('One run: a random causal graph (2-6 nodes, latent arcs, awkward names), a random treatment and outcome and the identification '
        'queries about them; the graph is declared in several orders and ways, in this process and in processes with other string hash '
        'seeds.  One answer per query is demanded, and it is judged by an independent model of the graphical criteria and by exact '
        'probabilities of a random structural model.')
REAL = ['ylearn.causal_model (graph, model, prob, utils)', 'networkx', 'other Python processes with other hash seeds']
STUB = []
ASSUMPTIONS = ['networkx is order-independent except where it lists nodes and edges in insertion order']
QUICK_S = 40
TOL = 1e-7


def name_set(names, form):
    if form == 'str':
        return names[0]
    return {'set': set, 'list': list, 'tuple': tuple}[form](names)


def canon_sets(r):
    """adjustment part of an answer in a comparable form"""
    if r is None:
        return None
    if isinstance(r, (set, frozenset)) or all(isinstance(e, str) for e in r):
        return ('one', tuple(sorted(r)))
    return ('many', tuple(sorted(tuple(sorted(e)) for e in r)))


def canon_path(p, cg):
    return tuple(v if v in cg.causation else 'latent' for v in p)


def ask(cg, q, scm=None, cm=None):
    """(kind, value, numeric estimand or None)"""
    cm = CausalModel(causal_graph=cg) if cm is None else cm
    op, x, y, extra = q
    num = None
    try:
        if op == 'id':
            p = cm.id(y, x)
            p.parse()
            return ('expr', None, scm.value(p) if scm is not None else None)
        if op == 'identify':
            r = cm.identify(x, y, extra)
            k = next(iter(r))
            r = r[k]
            if k == 'ID':
                return ('expr', None, scm.value(r) if scm is not None else None)
        elif op == 'backdoor':
            r = cm.get_backdoor_set(x, y, extra)
        elif op == 'frontdoor':
            r = cm.get_frontdoor_set(x, y, extra)
        elif op == 'iv':
            r = cm.get_iv(x, y)
            return ('set', None if r is None else tuple(sorted(r)), None)
        elif op == 'is_iv':
            return ('bool', bool(cm.is_valid_iv(x, y, extra)), None)
        elif op == 'is_backdoor':
            return ('bool', bool(cm.is_valid_backdoor_set(extra, x, y)), None)
        elif op == 'is_frontdoor':
            return ('bool', bool(cm.is_frontdoor_set(extra, x, y)), None)
        elif op == 'paths':
            ps = cm.get_backdoor_path(x, y)
            return ('paths', tuple(sorted((canon_path(p, cg), bool(cm.is_connected_backdoor_path(p))) for p in ps)), None)
        elif op == 'relations':
            return ('relations', (tuple(sorted(cg.ancestors(x))), tuple(sorted(cg.descendents(x))),
                                  tuple(sorted(tuple(sorted(c)) for c in cg.c_components)),
                                  bool(cg.is_d_separated(set(x), set(y), extra)), bool(cg.is_dag)), None)
        if r is None:
            return ('set', None, None)
        r[1].parse()
        if scm is not None:
            num = scm.value(r[1])
        return ('set', canon_sets(r[0]), num)
    except IdentificationError:
        return ('not-identified', None, None)
    except AssertionError as e:
        return ('assert', str(e)[:80], None)
    except Exception as e:
        return ('raise', type(e).__name__, None) if op == 'is_iv' else ('raise', f'{type(e).__name__}: {e}', None)


def remote(decl, how, qs, scm):
    cg = G.build(decl, how)
    return [ask(cg, q, scm) for q in qs]


def agree(a, b):
    if a[:2] != b[:2]:
        return False
    if a[2] is None or b[2] is None:
        return a[2] is None and b[2] is None
    return bool(np.allclose(*np.broadcast_arrays(a[2], b[2]), rtol=TOL, atol=TOL))


def ambiguous(sim, g, order):
    """([treatment, outcome], operation) with several smallest sets, if one of the pairs looked at has them"""
    pairs = sim.shuffled([(x, y) for x in order for y in order if x != y], 'pairs')[:8]
    for op, f in (('backdoor', lambda x, y: g.backdoor_sets([x], [y])), ('frontdoor', g.frontdoor_sets)):
        for x, y in pairs:
            sizes = [len(s) for s in f(x, y)]
            if sizes and min(sizes) > 0 and sizes.count(min(sizes)) > 1:
                return [x, y], op
    return None


def questions(sim, g):
    """(query as asked, treatments, outcomes, base op, style)"""
    nodes = sorted(g.nodes)
    order = sim.shuffled(nodes, 'pick')
    nx = 1 if len(nodes) < 4 or not sim.flip(25, 'two-treatments') else 2
    ny = 1 if len(nodes) - nx < 2 or not sim.flip(15, 'two-outcomes') else 2
    if sim.flip(70, 'downstream') and nx == 1:      # an outcome the treatment can reach is more telling
        y = [v for v in order if len(g.anc([v])) > 1]
        if y:
            xs = [v for v in order if v in g.anc([y[0]]) - {y[0]}]
            order = [xs[0], y[0]] + [v for v in order if v not in (xs[0], y[0])]
    choice = None
    if len(nodes) > 3 and sim.flip(35, 'several-answers'):
        choice = ambiguous(sim, g, order)
        if choice is not None:
            nx = ny = 1
            order = choice[0] + [v for v in order if v not in choice[0]]
    xs, ys = order[:nx], order[nx:nx + ny]
    forms = ['set', 'list', 'tuple'] + (['str', 'str', 'str'] if True else [])

    def form(v):
        return name_set(v, sim.pick([f for f in forms if len(v) == 1 or f != 'str'], 'form'))
    rest = sim.shuffled([v for v in nodes if v not in xs + ys], 'rest')
    out = []
    if choice is not None:
        st = sim.pick(['minimal', 'minimal', 'simple'], 'style')
        out.append(((choice[1], form(xs), form(ys), st), choice[1], st))
    for _ in range(sim.between(2, 5, 'queries')):
        op = ['id', 'backdoor', 'frontdoor', 'iv', 'is_iv', 'is_backdoor', 'is_frontdoor', 'identify', 'paths', 'relations'][
            sim.weighted([4, 5, 3, 2, 1, 2, 2, 3, 1, 1], 'op')]
        z = set(rest[:sim.choose(len(rest) + 1, 'zs')])
        if op in ('frontdoor', 'iv', 'is_iv', 'is_frontdoor') and (nx > 1 or ny > 1):
            continue
        if op == 'id':
            out.append(((op, form(xs), form(ys), None), op, None))
        elif op == 'identify':
            m = [('backdoor', 'simple'), ('backdoor', 'minimal'), ('backdoor', 'all'), 'general'][sim.choose(4, 'method')]
            if nx == ny == 1 and sim.flip(20, 'fd'):
                m = ('frontdoor', sim.pick(['simple', 'minimal', 'all'], 'style'))
            out.append(((op, form(xs), form(ys), m), 'id' if m == 'general' else m[0], None if m == 'general' else m[1]))
        elif op in ('backdoor', 'frontdoor'):
            st = sim.pick(['simple', 'minimal', 'all'], 'style')
            out.append(((op, form(xs), form(ys), st), op, st))
        elif op in ('iv', 'is_iv'):
            out.append(((op, xs[0], ys[0], set(sim.shuffled(nodes, 'ivs')[:sim.between(1, 2, 'n')])), op, None))
        elif op == 'paths':
            out.append(((op, xs[0], ys[0], None), op, None))
        elif op == 'relations':
            out.append(((op, set(xs), set(ys), z), op, None))
        elif op == 'is_backdoor':
            out.append(((op, form(xs), form(ys), z), op, None))
        else:
            out.append(((op, xs[0], ys[0], z), op, None))
    return xs, ys, out


def judge(g, xs, ys, q, op, style, ans, truth):
    """None or (kind, detail): does the answer meet the criterion"""
    kind, val, num = ans
    if kind in ('raise', 'assert') and op != 'is_iv':
        return 'query-failed', f'{val}'
    if op == 'id':
        ident = g.identifiable(xs, ys)
        if (kind == 'expr') != ident:
            return 'identifiability-wrong', f'effect is {"" if ident else "not "}identifiable, answer {kind}'
        if ident and not np.allclose(*np.broadcast_arrays(num, truth), rtol=1e-6, atol=1e-8):
            return 'wrong-expression', 'the expression does not evaluate to P(y|do(x)) of a structural model with this graph'
    elif op == 'backdoor':
        if kind == 'not-identified':
            return 'query-failed', 'IdentificationError instead of an answer'
        good = g.backdoor_sets(xs, ys)
        if val is None:
            return ('set-missed', f'no set found but {good[0]} is valid') if good else None
        sets = [set(val[1])] if val[0] == 'one' else [set(s) for s in val[1]]
        for s in sets:
            if not g.backdoor(xs, ys, s):
                return 'invalid-set', f'{sorted(s)} does not satisfy the back-door criterion'
        if style == 'minimal' and (not sets or min(map(len, sets)) > min(map(len, good)) or max(map(len, sets)) > min(map(len, good))):
            return 'not-minimal', f'{sets}, smallest valid set {good[0]}'
        if style == 'all' and sorted(map(sorted, sets)) != sorted(map(sorted, good)):
            return 'not-all', f'{sets}; valid sets {good}'
        if num is not None and not np.allclose(*np.broadcast_arrays(num, truth), rtol=1e-6, atol=1e-8):
            return 'wrong-expression', f'the estimand for {sets} does not evaluate to P(y|do(x))'
    elif op == 'frontdoor':
        good = [z for z in g.frontdoor_sets(xs[0], ys[0])]
        use = [z for z in good if z] if style != 'all' else good
        if kind == 'not-identified':
            return ('set-missed', f'no set found but {use[0]} is valid') if use and set() not in good else None
        sets = [set(val[1])] if val[0] == 'one' else [set(s) for s in val[1]]
        for s in sets:
            if not g.frontdoor(xs[0], ys[0], s):
                return 'invalid-set', f'{sorted(s)} does not satisfy the front-door criterion'
        if style == 'all' and sorted(map(sorted, sets)) != sorted(map(sorted, good)):
            return 'not-all', f'{sets}; valid sets {good}'
        if style != 'all' and len(sets[0]) != min(map(len, good)):
            return 'not-minimal', f'{sets}, smallest valid {good[0]}'
        if num is not None and sets[0] and not np.allclose(*np.broadcast_arrays(num, truth), rtol=1e-6, atol=1e-8):
            return 'wrong-expression', f'the estimand for {sets} does not evaluate to P(y|do(x))'
    elif op == 'iv':
        good = g.instruments(xs[0], ys[0])
        if set(val or ()) != good:
            return 'invalid-set' if set(val or ()) - good else 'set-missed', f'instruments {val}; valid {sorted(good)}'
    elif op == 'is_iv':
        good = g.instruments(xs[0], ys[0])
        if good and (kind != 'bool' or val != (q[3] <= good)):
            return 'wrong-verdict', f'is_valid_iv({q[3]}) = {ans[:2]}; valid instruments {sorted(good)}'
        if not good and kind == 'bool' and val:
            return 'wrong-verdict', f'is_valid_iv({q[3]}) = True without any instrument'
    elif op == 'paths':
        good = tuple(sorted((tuple(v if isinstance(v, str) else 'latent' for v in p), c) for p, c in g.backdoor_paths(xs[0], ys[0])))
        if val != good:
            return 'wrong-paths', f'{val}; expected {good}'
    elif op == 'relations':
        good = (tuple(sorted(g.anc(xs))), tuple(sorted(g.desc(xs))), tuple(sorted(tuple(sorted(c)) for c in g.districts())),
                g.dsep(xs, ys, q[3]), True)
        if val != good:
            return 'wrong-relation', f'{val}; expected {good}'
    elif op == 'is_backdoor':
        if val != g.backdoor(xs, ys, q[3]):
            return 'wrong-verdict', f'is_valid_backdoor_set({sorted(q[3])}) = {val}'
    elif op == 'is_frontdoor':
        if val != g.frontdoor(xs[0], ys[0], q[3]):
            return 'wrong-verdict', f'is_frontdoor_set({sorted(q[3])}) = {val}'
    return None


def orders(sim):
    g = G.random_graph(sim, 6 if sim.tier == 'quick' else 7)
    xs, ys, qs = questions(sim, g)
    if not qs:
        return
    scm = G.SCM(g, sim.nprng('tables'))
    truth = scm.effect(xs, ys)
    sim.note('graph', sorted((k, sorted(v)) for k, v in g.parents.items()), sorted(map(sorted, g.arcs)), 'do', xs, 'on', ys)
    sim.mark(len(g.nodes), len(g.arcs), tuple(sorted((len(v) for v in g.parents.values()))), xs, ys)
    asked = [q for q, _, _ in qs]
    base = remote(G.declare(sim, g, 'first'), 0, asked, scm)
    for (q, op, st), a in zip(qs, base):
        sim.note(q[0], op, st, a[0], a[1])
        sim.mark(q[0], st, a[0], a[1])
        bad = judge(g, xs, ys, q, op, st, a, truth)
        if bad:
            raise Violation(bad[0], f'{op}.{st}' if st else op, f'{q} on {g.parents} arcs {sorted(map(sorted, g.arcs))}: {bad[1]}')
    for _ in range(sim.between(1, 3, 'orders')):
        decl, how = G.declare(sim, g, 'again'), sim.choose(4, 'built')
        who = sim.choose(1 + peers.count(), 'process')
        if who:
            sim.fault('other-hash-seed')
            got = peers.call(who - 1, 'remote', decl, how, asked, scm)
        else:
            sim.fault('other-declaration-order')
            got = remote(decl, how, asked, scm)
        for (q, op, st), a, b in zip(qs, base, got):
            if not agree(a, b):
                raise Violation('depends-on-order', f'{op}.{st}' if st else op,
                                f'{q} on {g.parents} arcs {sorted(map(sorted, g.arcs))}: {a[:2]}; declared as {decl} ({how}), '
                                f'process {who}: {b[:2]}')


SCENARIOS = [('orders', orders, 1)]
