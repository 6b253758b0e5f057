"""C05: a failed or interrupted fit leaves no trace in later answers."""
from dst.core import Skip, Violation, attempt, fp, outcome_same
from dst.simjoblib import JobSim
from . import faults as F
from . import worlds as W

RULE = ('One run: one object with seeded settings, optionally a completed fit, then a fit in which one fault fires at a seeded '
        'point (nuisance-model call, executed line, worker, damaged data), queries, and a clean fit with queries.')
REAL = ['ylearn estimators, policy tree, interpreters, uplift model', 'joblib.Parallel dispatch', 'scikit-learn nuisance models']
STUB = ['joblib worker back ends (simulated workers)', 'user models wrapped so that their calls can fail on demand',
        'interrupts raised at executed source lines of ylearn through sys.settrace']
ASSUMPTIONS = ['nuisance models are deterministic functions of their training data',
               'an exception can arrive at any executed Python source line of ylearn, not inside compiled code']


def show(sp):
    return {k: v for k, v in sp.kwargs.items() if k not in ('data', 'df_lift', 'est_model', 'effect_array')}


def failed_fit(sim):
    kind = W.pick_kind(sim)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    with JobSim(sim, mode='order') as js:
        obj = kind.make()
        refs = []
        specs = []
        w0 = kind.world(sim, tag='0')
        sp0 = kind.spec(sim, w0)
        if sim.flip(65, 'completed-fit-first'):
            if attempt(F.noarg(sp0, obj)).ok:
                r0 = W.fitted(kind, sp0)
                if r0 is None:
                    raise Skip('reference fit failed')
                refs.append(('previous', r0))
                specs.append(sp0)
                for q in kind.queries(sim, w0, sim.choose(2, 'pq')):
                    q(obj)
        w1 = w0 if sim.flip(35, 'same-data') else kind.world(sim, tag='1')
        sp1 = kind.spec(sim, w1)
        sim.note('fit0', bool(refs), show(sp0), 'fit1', show(sp1))
        if sim.flip(15, 'damage'):
            sp1, what = F.bad_data(sim, sp1)
            o = attempt(F.noarg(sp1, obj))
            sim.fault('data-' + what)
            fired, what = True, 'data-' + what
        else:
            o, fired, what = F.faulted_call(sim, kind, F.noarg(sp1, obj), F.noarg(sp1, kind.make()), js)
        sim.note('faulted fit', fired, o.ok, o.exc, what)
        if fired and o.ok:
            # the fault did not surface (e.g. damaged cell in an unused column): the object must then equal a fresh fit
            sim.count('fault-did-not-surface')
        r1 = W.fitted(kind, sp1)
        if r1 is not None:
            refs.append(('attempted', r1))
            specs.append(sp1)
        if o.ok:
            if not fired and r1 is not None:
                refs = [('attempted', r1)]
            elif fired:
                raise Skip('fault swallowed')
        qs = kind.queries(sim, w1, 2) + kind.queries(sim, w0, 1) + kind.queries(sim, w1, sim.choose(3, 'more'))
        left = list(refs)
        answered = 0
        for q in qs:
            b = q(obj)
            sim.note('query', q.name, b.ok, fp(b.val) if b.ok else b.exc)
            sim.mark('q', q.name, b.ok)
            sim.count('answered-after-failure' if b.ok else 'refused-after-failure')
            if not b.ok:
                continue
            answered += 1
            keep = []
            seen = []
            for nm, r in left:
                a = q(r)
                seen.append(f'{nm} fit: {a}')
                if outcome_same(a, b):
                    keep.append((nm, r))
            if not keep:
                raise Violation('mixed-answer', f'{kind.name}.{q.name.split("(")[0].split(":")[0]}',
                                f'after a fit that failed ({what}; {o.exc}) query {q.name} answered {b}; '
                                f'{"; ".join(seen) or "no complete fit exists"} (still possible before: {[n for n, _ in left]})')
            left = keep
        # a later clean fit equals a fresh one
        w2 = [w1, w0][sim.choose(2, 'retry-data')]
        sp2 = kind.spec(sim, w2)
        fresh = kind.make()
        of, oo = attempt(F.noarg(sp2, fresh)), attempt(F.noarg(sp2, obj))
        sim.note('retry', show(sp2), of.ok, of.exc)
        if of.ok != oo.ok:
            raise Violation('retry-outcome', kind.name, f'after a failed fit ({what}): new object {of}; retried object {oo}')
        if of.ok:
            sim.count('compared-retries')
            for q in kind.queries(sim, w2, 3):
                a, b = q(fresh), q(obj)
                if not outcome_same(a, b):
                    raise Violation('retry-differs', f'{kind.name}.{q.name.split("(")[0].split(":")[0]}',
                                    f'after a failed fit ({what}), clean fit, query {q.name}: new object {a}, retried object {b}')
        elif not answered and not refs:
            raise Skip('nothing comparable')


SCENARIOS = [('failed_fit', failed_fit, 10)]
