"""C06: refitting an object equals fitting a fresh one."""
import pandas as pd

from dst.core import Skip, Violation, attempt, fp, outcome_same
from dst.simjoblib import JobSim, perturb_rng
from . import c15
from . import worlds as W

RULE = ('One run: one estimator/policy/interpreter/uplift object with seeded settings, a seeded history of fits (some failing) and '
        'queries on 1-3 other data sets, then a final fit and queries, compared query by query with a new object.')
REAL = ['ylearn estimators, policy tree, interpreters, uplift model, discoverers', 'joblib.Parallel dispatch', 'scikit-learn nuisance models']
STUB = ['joblib worker back ends (simulated workers)', 'user models wrapped so that their calls can fail on demand']
ASSUMPTIONS = ['nuisance models are deterministic functions of their training data']


def refit(sim):
    kind = W.pick_kind(sim)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    with JobSim(sim, mode='order'):
        obj = kind.make()
        nh = sim.between(1, 3, 'history')
        done = 0
        worlds = []
        for i in range(nh):
            w = kind.world(sim, tag=f'h{i}')
            worlds.append(w)
            sp = kind.spec(sim, w)
            if sim.flip(25, 'fail-this-fit') and kind.flaky:
                W.PLAN.arm(sim.choose(6, 'fail-at-call'), W.NuisanceFailed('injected'))
            o = attempt(lambda: (sp.call(obj), None)[1])
            if W.PLAN.fired:
                sim.fault('nuisance-model-error')
            W.PLAN.disarm()
            W.PLAN.fired = 0
            done += o.ok
            sim.note('history fit', i, {k: v for k, v in sp.kwargs.items() if k not in ('data', 'df_lift')}, o.ok, o.exc)
            for q in kind.queries(sim, w, sim.choose(3, 'hq')):
                r = q(obj)
                sim.note('history query', q.name, r.ok)
                sim.mark('hq', q.name)
        # the final fit: new data, or one of the old data sets with other options
        which = sim.weighted([5, 3, 3], 'final-data')
        if which == 0:
            w = kind.world(sim, tag='final')
        else:
            w = worlds[sim.choose(nh, 'which')]
            if which == 2:
                W.scramble(sim, *frames(w))
        sim.mark('final', which)
        sp = kind.spec(sim, w)
        fresh = kind.make()
        of = attempt(lambda: (sp.call(fresh), None)[1])
        oo = attempt(lambda: (sp.call(obj), None)[1])
        sim.note('final fit', {k: v for k, v in sp.kwargs.items() if k not in ('data', 'df_lift')}, of.ok, of.exc)
        if of.ok != oo.ok:
            raise Violation('refit-outcome', kind.name, f'fit on a new object: {of}; on the refitted object: {oo}; '
                                                        f'args { {k: v for k, v in sp.kwargs.items() if k != "data"} }')
        if not of.ok:
            sim.count('final-fit-rejected')
            raise Skip('the final fit is rejected')
        sim.count('compared-refits')
        for q in kind.queries(sim, w, 4):
            a, b = q(fresh), q(obj)
            sim.note('query', q.name, a.ok, fp(a.val) if a.ok else a.exc)
            sim.mark('q', q.name, a.ok)
            sim.count('queries-answered' if a.ok else 'queries-refused')
            if not outcome_same(a, b):
                raise Violation('refit-differs', f'{kind.name}.{q.name.split("(")[0].split(":")[0]}',
                                f'query {q.name}: new object {a}, refitted object {b}')


def frames(w):
    return [v for k, v in sorted(vars(w).items()) if isinstance(v, pd.DataFrame)]


def discoverers(sim):
    """a discoverer called on other data before, with other options, some of the calls failing"""
    kind = c15.pick_kind(sim)
    d = sim.between(2, 5, 'columns')
    mk = kind.init(sim)
    rs = [3, 0][sim.choose(2, 'random_state')]
    obj = mk(rs)
    sim.mark(kind.name)

    def one(tag):
        kw = kind.call(sim)
        k = sim.between(2, 5, 'columns')
        z = c15.make_data(sim, kind, k, kw, tag)
        if sim.flip(60, 'frame'):
            z = pd.DataFrame(z, columns=sim.pick(c15.NAMES, 'names')[:k])
        return z, kw
    keep = None
    for i in range(sim.between(1, 3, 'history')):
        z, kw = keep = one(f'h{i}') if keep is None or not sim.flip(25, 'same-data') else (keep[0], kind.call(sim))
        pl = c15.plan(sim, kind)
        o, fired = c15.do_call(sim, obj, z.copy() if sim.flip(50, 'copy') else z, kw, pl, 7, form=bool(sim.choose(2, 'form')) and not kind.pair)
        for f in fired[:2]:
            sim.fault(f)
        sim.note('history call', kind.name, i, o.ok)
    z, kw = keep
    if sim.flip(65, 'other-data'):
        z, kw = one('final')
    elif isinstance(z, pd.DataFrame) and sim.flip(60, 'rewrite'):
        W.scramble(sim, z)
    form = bool(sim.choose(2, 'form')) and not kind.pair
    perturb_rng(sim)
    a, _ = c15.do_call(sim, mk(rs), c15.same_layout(z), kw, None, 7, form=form)
    perturb_rng(sim)
    b, _ = c15.do_call(sim, obj, z, kw, None, 7, form=form)
    sim.note('final call', kind.name, kw.get('threshold'), a.ok, fp(a.val) if a.ok else a.exc[:40])
    sim.count('compared-calls' if a.ok else 'refused-calls')
    if not outcome_same(a, b):
        raise Violation('refit-differs', kind.name, f'final call: {b}; new object {a}')


SCENARIOS = [('refit', refit, 8), ('discoverers', discoverers, 2)]
RUN_TIMEOUT = 120
