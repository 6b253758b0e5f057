"""C07: queries are read-only, repeatable and safe to run concurrently."""
from dst import sched
from dst.core import Skip, Violation, attempt, fp, outcome_same
from dst.simjoblib import JobSim
from dst.tracer import choose_crash, crash_at, record_lines
from . import faults as F
from . import snap as S
from . import worlds as W

RULE = ('One run: one fitted object, a seeded sequence or thread interleaving of queries (some failing), each answer compared with '
        'the answer of a newly fitted object asked only that query.')
REAL = ['ylearn estimators, policy tree, interpreters, uplift model', 'joblib.Parallel dispatch', 'scikit-learn nuisance models']
STUB = ['thread scheduling (seeded scheduler switching at executed ylearn source lines)', 'joblib worker back ends (simulated workers)',
        'user models wrapped so that their calls can fail on demand']
ASSUMPTIONS = ['a fit repeated with the same arguments gives the same object (checked by C03 and C06)',
               'hand-over between threads happens at Python source lines of ylearn, not inside compiled code, sklearn or pandas']


def _setup(sim, nq, kinds=None):
    kind = W.pick_kind(sim, kinds)
    sim.note('kind', kind.name, kind.cfg)
    sim.mark(kind.name)
    w = kind.world(sim, tag='0')
    sp = kind.spec(sim, w)
    obj = W.fitted(kind, sp)
    if obj is None:
        raise Skip('fit rejected')
    qs = kind.queries(sim, w, nq)
    return kind, w, sp, obj, qs


def _check(kind, q, ref, got, how):
    if not outcome_same(ref, got):
        raise Violation('query-differs', f'{kind.name}.{q.name.split("(")[0].split(":")[0]}',
                        f'{how}: query {q.name} answered {got}; alone it answers {ref}')


def sequence(sim):
    """queries one after another, some interrupted or failing, then repeated"""
    with JobSim(sim, mode='order'):
        kind, w, sp, obj, qs = _setup(sim, sim.between(2, 5, 'queries'))
        alone = [q(W.fitted(kind, sp)) for q in qs]
        order = []
        for i in range(len(qs)):
            order.append(i)
            if sim.flip(40, 'repeat'):
                order.append(sim.choose(i + 1, 'which'))
        rewrite = sim.choose(len(order), 'rewrite-before') if sim.flip(40, 'rewrite') else None
        for pos, i in enumerate(order):
            q = qs[i]
            if pos == rewrite:                       # the caller fills the same test frame with other values
                W.scramble(sim, w.test)
                sim.note('test frame rewritten')
                alone = [q(W.fitted(kind, sp)) for q in qs]
            q = qs[i]
            f = sim.weighted([6, 2, 2, 1], 'query-fault')
            if f == 1 and kind.flaky:
                W.PLAN.arm(sim.choose(4, 'fail-at-call'), W.NuisanceFailed('injected'))
                q(obj)
                if W.PLAN.fired:
                    sim.fault('nuisance-model-error')
                W.PLAN.disarm()
                W.PLAN.fired = 0
                sim.mark('fq', q.name)
            elif f == 2:
                obj2 = W.fitted(kind, sp)
                _, sites, _ = record_lines(lambda: q(obj2))
                cp = choose_crash(sim, sites)
                if cp is not None:
                    site, occ, nm, exc = cp
                    _, fired = crash_at(lambda: q(obj), site, occ, exc)
                    if fired:
                        sim.fault('line-' + nm)
                    sim.mark('cq', q.name, site[1])
            elif f == 3:
                bad = w.test.drop(columns=[c for c in w.v + w.w if c in w.test][:1])
                attempt(lambda: obj.estimate(data=bad) if hasattr(obj, 'estimate') else obj.predict(data=bad))
                sim.fault('bad-query-data')
            got = q(obj)
            sim.note('query', pos, q.name, got.ok, fp(got.val) if got.ok else got.exc)
            sim.mark('q', q.name, got.ok)
            sim.count('queries-answered' if got.ok else 'queries-refused')
            _check(kind, q, alone[i], got, f'in a sequence (position {pos}, before it {[qs[j].name for j in order[:pos]]})')


def threads(sim):
    """two or three threads ask the same object"""
    with JobSim(sim, mode='order', perturb_rng=False):
        nt = sim.between(2, 3, 'threads')
        per = sim.between(1, 2, 'queries-per-thread')
        kind, w, sp, obj, qs = _setup(sim, nt * per)
        alone = [q(W.fitted(kind, sp)) for q in qs]
        got = [None] * len(qs)

        def worker(t):
            def go():
                for j in range(per):
                    got[t * per + j] = qs[t * per + j](obj)
            return go
        rs = sched.run_threads(sim, [worker(t) for t in range(nt)])
        for t, (_, exc) in enumerate(rs):
            if exc is not None:
                raise exc
        for q, a, g in zip(qs, alone, got):
            sim.note('query', q.name, g.ok, fp(g.val) if g.ok else g.exc)
            sim.count('queries-answered' if g.ok else 'queries-refused')
            _check(kind, q, a, g, f'with {nt} threads asking {[x.name for x in qs]}')
        for q, a in zip(qs, alone):
            _check(kind, q, a, q(obj), 'after concurrent queries')


SCENARIOS = [('sequence', sequence, 5), ('threads', threads, 5)]
