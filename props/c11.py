"""C11: Bayesian networks do not leak into each other or into the caller's store."""
import pandas as pd
import pyro
import torch

from dst.core import Out, Skip, Violation, attempt, fp, outcome_same
from dst.simjoblib import perturb_rng
from dst.tracer import choose_crash, crash_at, record_lines
from . import bn as B
from . import snap as S

RULE = ('One run: two or three networks on seeded graphs and data, a caller-owned pyro store (also with colliding parameter names), a '
        'seeded interleaving of fit/do/sample/predict/estimate on them, in place or not, some interrupted or failing; every answer is '
        'compared with the same operations on one network alone with an empty store.')
REAL = ['ylearn.bayesian networks, modules, guides', 'pyro', 'torch', 'networkx']
STUB = ['nothing; process-wide generators are put in known or perturbed states']
ASSUMPTIONS = ['an operation without random_state draws from the process-wide generators, which the harness seeds before it']
RUN_TIMEOUT = 240


class Boom(ValueError):
    pass


class Net:
    def __init__(self, w, obj, hists, name):
        self.w, self.obj, self.hists, self.name = w, obj, hists, name      # hists: possible alone-histories (lists of changing ops)


def caller_store(sim, nets):
    store = pyro.get_param_store()
    store.clear()
    if sim.flip(70, 'caller-store'):
        rs = sim.nprng('store')
        pyro.param('mine', torch.tensor(rs.normal(size=3)))
        pyro.param('scale', torch.tensor(2.5), constraint=torch.distributions.constraints.positive)
    if sim.flip(50, 'colliding-names'):
        # the names a network of this shape would use
        w = sim.pick(nets, 'names-of').w
        net = w.net()
        old = store.get_state()
        o = attempt(lambda: (net.fit(w.frames[0], epochs=1, random_state=1), None)[1])
        store.clear()
        store.set_state(old)
        if o.ok:
            st = net.pyro_param_state
            for k, v in st['params'].items():
                pyro.param(k, v.detach() + 5.0)
            sim.count('probe:colliding-names', len(st['params']))


class Alone:
    """answers of networks run alone (cached by history)"""

    def __init__(self):
        self.nets = {}
        self.kept = []

    def get(self, w, hist):
        key = (id(w), tuple(id(o) for o in hist))
        self.kept.append((w, list(hist)))          # keeps the ids valid
        if key not in self.nets:
            store = pyro.get_param_store()
            old = store.get_state()
            try:
                store.clear()
                net = w.net()
                for o in hist:
                    op = B.Op(o.name, dict(o.kw, inplace=True), o.g, True)
                    r = op(net)
                    if not r.ok:
                        raise Skip(f'history not reproducible: {o} {r}')
                self.nets[key] = net
            finally:
                store.clear()
                store.set_state(old)
        return self.nets[key]

    def ask(self, w, hist, op):
        store = pyro.get_param_store()
        old = store.get_state()
        try:
            store.clear()
            return op(self.get(w, hist))
        finally:
            store.clear()
            store.set_state(old)


def histories(sim):
    nn = sim.between(2, 3, 'networks')
    nets = []
    for i in range(nn):
        w = nets[0].w if i and sim.flip(50, 'same-world') else B.BNWorld(sim, tag=f'n{i}')
        nets.append(Net(w, w.net(), [[]], f'net{i}'))
    caller_store(sim, nets)
    alone = Alone()
    answered = 0
    for step in range(sim.between(5, 11, 'ops')):
        net = nets[step] if step < nn and not sim.flip(15, 'query-unfitted') else sim.pick(nets, 'which')
        w = net.w
        k = 0 if step < nn else sim.weighted([2, 3, 7], 'op')
        if k == 0:
            op = B.fit_op(sim, w, inplace=not sim.flip(25 if step >= nn else 8, 'not-inplace'))
        elif k == 1:
            op = B.do_op(sim, w, inplace=not sim.flip(50, 'not-inplace'))
        else:
            op = B.query_op(sim, w)
        args = op.args()
        before, sb = S.snap(args), B.store_snap()
        if op.kw.get('random_state') is not None:
            perturb_rng(sim)
        fault = sim.flip(25 if step >= nn else 10, 'fault')
        res, fired, what = {}, False, ''

        def go():
            res['o'] = Out(False, exc='interrupted')
            op.seed_process()
            val = {}

            def body():
                val['v'] = op.raw(net.obj, args)
                return None if op.changes else val['v']
            res['o'] = attempt(body)
            res['v'] = val.get('v')
        if fault:
            how = sim.choose(3, 'fault-kind')
            if how == 0 and op.name == 'fit':
                left = [sim.choose(op.kw['epochs'], 'fail-epoch')]

                def verbose(i, loss):
                    if i == left[0]:
                        raise Boom('callback')
                args['verbose'] = verbose
                go()
                args.pop('verbose')
                fired, what = True, 'callback error'
                sim.fault('callback-error')
            elif how == 1 and isinstance(args.get('data'), pd.DataFrame):
                bad = args['data'].copy()
                c = list(bad.columns)[sim.choose(bad.shape[1], 'bad-col')]
                if sim.flip(50, 'drop'):
                    bad = bad.drop(columns=[c])
                else:
                    bad[c] = bad[c].astype(object)
                    bad.iloc[0, list(bad.columns).index(c)] = 'oops'
                args['data'] = bad
                before = S.snap(args)
                go()
                fired, what = True, 'bad data'
                if res['o'].ok:
                    # the damaged data is acceptable for this operation: then it is simply another operation
                    op = B.Op(op.name, dict(op.kw, data=bad), op.g, op.changes)
                    fired = False
                else:
                    sim.fault('bad-data')
            else:
                twin = alone.get(w, net.hists[0])
                import copy
                twin = copy.deepcopy(twin)
                st = pyro.get_param_store().get_state()

                def dry():
                    op.seed_process()
                    attempt(lambda: (op.raw(twin, op.args()), None)[1])
                _, sites, _ = record_lines(dry)
                pyro.get_param_store().clear()
                pyro.get_param_store().set_state(st)
                cp = choose_crash(sim, sites)
                if cp is None:
                    go()
                else:
                    site, occ, nm, exc = cp
                    _, fired = crash_at(go, site, occ, exc)
                    what = f"{nm} before {site[0].split('/ylearn/')[-1]}:{site[1]} #{occ}"
                    if fired:
                        sim.fault('line-' + nm)
        else:
            go()
        o = res['o']
        sim.note(step, net.name, op, what, o.ok, o.exc if not o.ok else (fp(o.val) if o.val is not None else ''))
        sim.mark(net.name, op.name, o.ok, bool(fired))
        after, sa = S.snap(args), B.store_snap()
        if before != after:
            raise Violation('argument-changed', op.name, f'{op} ({what}): {S.where(before, after)}')
        if sb != sa:
            kb, ka = {p[0]: p for p in sb[0]}, {p[0]: p for p in sa[0]}
            diff = sorted(k for k in set(kb) | set(ka) if kb.get(k) != ka.get(k))
            raise Violation('store-changed', op.name, f'{op} ({what}; {o}) changed the caller\'s pyro store: {diff[:6]}')
        sim.count('store-checks')
        if op.changes:
            if not fired or o.ok:
                hyp = [h for h in net.hists]
                if o.ok:
                    new = [[op]] if op.name == 'fit' else [h + [op] for h in hyp]      # a fit forgets what came before
                    for h in new[:1]:
                        alone.get(w, h)         # must be possible alone too
                    if op.kw['inplace']:
                        net.hists = new
                    else:
                        if res['v'] is net.obj:
                            raise Violation('not-a-copy', op.name, f'{op} returned the network itself')
                        nets.append(Net(w, res['v'], new, f'net{len(nets)}'))
                else:
                    # must fail alone too
                    a = [alone_fails(alone, w, h, op) for h in hyp]
                    if not any(a):
                        raise Violation('operation-fails', op.name, f'{op} on {net.name} raised {o.exc}; alone it works')
                    sim.count('ops-rejected')
            elif op.kw['inplace']:
                net.hists = net.hists + ([[op]] if op.name == 'fit' else [h + [op] for h in net.hists])
            continue
        if fired and not o.ok:
            continue
        # a query: some admissible alone-history must give the same answer
        keep = []
        answers = []
        for h in net.hists:
            try:
                a = alone.ask(w, h, op)
            except Skip:
                continue
            answers.append(a)
            if outcome_same(a, o, rtol=1e-5, atol=1e-6):
                keep.append(h)
        if not answers:
            continue
        if keep:
            if o.ok:
                net.hists = keep
                answered += 1
        elif o.ok or len(net.hists) == 1:
            raise Violation('answer-differs', op.name, f'{op} on {net.name} after {[x.name for x in net.hists[0]]}: {o}; alone: {answers[0]}')
    # every network, finally: seeded question twice
    for net in nets:
        op = B.query_op(sim, net.w)
        if op.kw.get('random_state') is None and op.name != 'fitted_params':
            op.kw['random_state'] = 5
        a = op(net.obj)
        perturb_rng(sim)
        b = op(net.obj)
        if not outcome_same(a, b, rtol=1e-5, atol=1e-6):
            raise Violation('repeat-differs', op.name, f'{op} asked twice: {a}; {b}')
        answers = []
        for h in net.hists:
            try:
                answers.append(alone.ask(net.w, h, op))
            except Skip:
                pass
        answered += a.ok
        if answers and not any(outcome_same(x, a, rtol=1e-5, atol=1e-6) for x in answers) and (a.ok or len(net.hists) == 1):
            raise Violation('answer-differs', op.name, f'{op} on {net.name} after {[x.name for x in net.hists[0]]}: {a}; alone: {answers[0]}')
        sim.note('final', net.name, op, a.ok, fp(a.val) if a.ok else a.exc)
    sim.count('answers-compared', answered)
    if not answered:
        raise Skip('nothing answered')


def alone_fails(alone, w, h, op):
    try:
        alone.get(w, h + [op])
        return False
    except Skip:
        return True


SCENARIOS = [('histories', histories, 10)]
