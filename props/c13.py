"""C13: the Why workflow depends only on its arguments and last completed fit."""
import copy
import warnings

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression

import ylearn.estimator_model as em
from ylearn import Why
from ylearn.utils import logging
from ylearn.api._identifier import DefaultIdentifier, IdentifierWithLearner
from dst import sched
from dst.core import Skip, Violation, attempt, canon, fp, outcome_same, same
from dst.simjoblib import perturb_rng
from dst.tracer import choose_crash, crash_at, record_lines
from . import snap as S
from . import worlds as W

warnings.simplefilter('ignore')
logging.set_level('error')

RULE = ('One run: one Why object with seeded settings goes through a seeded history of fits (some failing on damaged data, a failing '
        'user model or learner, or an interruption at a chosen line), identify calls and queries, in sequence or from several threads; '
        'every answer is compared with that of a new Why with the same settings, fitted once and asked once.')
REAL = ['ylearn.api (Why, identifiers, utils, wrapped policy interpreter)', 'ylearn.estimator_model and its factories', 'ylearn.sklearn_ex',
        'ylearn.uplift', 'ylearn.effect_interpreter', 'scikit-learn']
STUB = ['thread scheduling (seeded, at ylearn source lines)', 'interruption at chosen source lines',
        'user models and the causal learner passed to Why are wrapped so that their calls can fail on demand']
ASSUMPTIONS = ['a seeded fit repeats exactly (checked by C03)', 'fit(copy=False) may use the frame it is given']
QUICK_S = 60
RUN_TIMEOUT = 60


# ---- settings and data ---------------------------------------------------------------------
def learner(X):
    """a user's causal learner: linear order of the columns, edges where the correlation is high"""
    W.PLAN.tick('learner')
    c = np.nan_to_num(np.corrcoef(X.values.astype(float).T))
    m = np.triu(np.abs(c), 1)
    return np.where(m > 0.12, m, 0.0)


class RankIdentifier(DefaultIdentifier):
    """a user's identifier that keeps notes, as the discovery ones do"""

    def __init__(self):
        self.seen = []

    def identify_treatment(self, data, outcome, discrete_treatment, count_limit, excludes=None):
        self.seen.append(data.shape)
        return super().identify_treatment(data, outcome, discrete_treatment, count_limit, excludes=excludes)


def cost(row):
    return row['effect'] * 2 - 1


class Settings:
    """constructor arguments; make() gives a new Why with its own copies"""

    def __init__(self, sim):
        kw = {}
        self.est = sim.pick(['tlearner', 'slearner', 'auto', 'dml', 'xlearner', 'dr', 'tree', 'grf', 'instance', 'slearner', 'dml', 'instance', 'iv'],
                            'estimator')
        lin = {'tlearner': dict(model='lr'), 'slearner': dict(model='lr'), 'xlearner': dict(model='lr'),
               'dml': dict(y_model='lr', x_model='lr', yx_model='lr', cf_fold=1 + sim.choose(2, 'cf')),
               'dr': dict(y_model='lr', x_model='lr', yx_model='lr', cf_fold=1 + sim.choose(2, 'cf')),
               'tree': dict(max_depth=2), 'grf': dict(n_estimators=4, sub_sample_num=0.7, n_jobs=1),
               'iv': dict(y_model='lr', x_model='lr'), 'bound': dict(y_model='lr', x_model='lr')}
        kw['estimator'] = self.est
        if self.est == 'instance':
            k = sim.choose(3, 'instance')
            if k == 0:
                kw['estimator'] = em.TLearner(model=W.WReg(LinearRegression()))
            elif k == 1:
                kw['estimator'] = em.SLearner(model=W.WReg(LinearRegression()))
            else:
                kw['estimator'] = em.DoubleML(x_model=W.WCls(LogisticRegression(max_iter=60)), y_model=W.WReg(LinearRegression()),
                                              yx_model=W.WReg(LinearRegression()), cf_fold=1 + sim.choose(2, 'cf'),
                                              is_discrete_treatment=True, random_state=3)
        elif self.est in lin:
            kw['estimator_options'] = lin[self.est]
            if self.est in ('tlearner', 'slearner', 'xlearner') and sim.flip(40, 'model-instance'):
                kw['estimator_options'] = dict(model=W.WReg(LinearRegression()))
        ident = sim.weighted([5, 3, 2], 'identifier')
        if ident == 1:
            kw['identifier'] = learner
            kw['identifier_options'] = sim.pick([dict(method='dfs'), dict(method='straight'), dict(method=('backdoor', 'simple'))], 'method')
        elif ident == 2:
            kw['identifier'] = sim.pick([RankIdentifier(), IdentifierWithLearner(learner)], 'identifier-instance')
        self.ident = ['auto', 'learner', 'instance'][ident]
        if sim.flip(25, 'cost'):
            kw['fn_cost'] = cost
        if sim.flip(25, 'set-discrete-outcome'):
            kw['discrete_outcome'] = sim.flip(30, 'discrete_outcome')
        if sim.flip(25, 'set-discrete-treatment'):
            kw['discrete_treatment'] = sim.flip(70, 'discrete_treatment') or getattr(kw['estimator'], 'is_discrete_treatment', False) is True
        kw['random_state'] = sim.pick([0, 7, 123], 'random_state')
        self.kw = kw
        self.name = f'{self.est}/{self.ident}'

    def args(self):
        return copy.deepcopy(self.kw)

    def make(self, kw=None):
        return Why(**(self.args() if kw is None else kw))

    def shown(self, why):
        """the constructor settings as the object shows them"""
        return S.snap({k: getattr(why, k) for k in ('discrete_outcome', 'discrete_treatment', 'identifier', 'identifier_options', 'estimator',
                                                    'estimator_options', 'fn_cost', 'effect_name', 'random_state')})


class Case:
    """data, and the arguments of one fit"""

    def __init__(self, sim, st, tag):
        self.n = n = sim.pick([30, 45, 60], 'rows')
        rs = sim.nprng('data' + tag)
        v, w = rs.normal(size=(n, 2)), rs.normal(size=(n, 2))
        d = dict(v1=v[:, 0], v2=v[:, 1], w1=w[:, 0], w2=w[:, 1])
        if sim.flip(30, 'text-covariate'):
            d['v2'] = np.array(['p', 'q', 'r'], dtype=object)[rs.randint(0, 3, n)]
        if sim.flip(20, 'missing-values'):
            d['w1'] = np.where(rs.rand(n) < 0.2, np.nan, d['w1'])
        kinds = ['int2', 'str2', 'int3', 'str3']
        cont = (self.cont_ok(st)) and sim.flip(35, 'continuous-treatment')
        self.x = ['x', 'xx'][:1 + (sim.choose(2, 'treatments') if st.est != 'auto' else 0)]
        eff = w[:, 0] * 0.5 + v[:, 0]
        self.values = {}
        for c in self.x:
            i = rs.randint(0, 3, n)
            i[:6] = [0, 1, 2, 0, 1, 2]
            if cont:
                d[c] = rs.normal(size=n) + 0.3 * w[:, 0]
                eff = eff + d[c] * (1 + 0.5 * v[:, 0])
                continue
            k = sim.pick(kinds if len(self.x) == 1 else kinds[:3], 'treatment-kind')
            vals = {'int2': [0, 1], 'str2': ['no', 'yes'], 'int3': [1, 2, 5], 'str3': ['a', 'b', 'c']}[k]
            i = i % len(vals)
            d[c] = np.array(vals, dtype=object if isinstance(vals[0], str) else None)[i]
            self.values[c] = vals
            eff = eff + i * (1 + 0.5 * v[:, 0])
        yk = 0 if st.kw.get('discrete_outcome') is False else sim.weighted([5, 1, 1, 1], 'outcome')
        if st.kw.get('discrete_outcome') and yk == 0:
            yk = 1
        y = eff + rs.normal(size=n) * 0.2
        if yk:
            vals = [None, [0, 1], ['bad', 'good'], [1, 2]][yk]
            y = np.array(vals, dtype=object if yk == 2 else None)[(y > np.median(y)).astype(int)]
            self.y_values = vals
        else:
            self.y_values = None
        d['y'] = y
        names = list(d)
        if sim.flip(30, 'column-order'):
            names = sim.shuffled(names, 'columns')
        self.data = pd.DataFrame({c: d[c] for c in names})
        m = sim.pick([3, 5, 7], 'test-rows')
        self.test = self.data.iloc[sim.shuffled(range(n), 'test-pick')[:m]].copy()
        ix = sim.choose(3, 'test-index')
        if ix == 1:
            self.test.index = [f'r{i}' for i in range(m)]
        elif ix == 2:
            self.test.index = [i // 2 for i in range(m)]
        if sim.flip(30, 'data-index'):
            self.data.index = rs.permutation(n) + 5
        self.tag = tag

    @staticmethod
    def cont_ok(st):
        return st.est in ('auto', 'dml', 'grf') and not st.kw.get('discrete_treatment') and not st.kw.get('discrete_outcome')


class Desk:
    """the caller's own frames: the same object is filled in anew, in place, for each call it is used in"""

    def __init__(self):
        self.frames = {}

    def hand(self, frame):
        old = self.frames.get((len(frame), tuple(frame.columns)))
        if old is None:
            old = self.frames[(len(frame), tuple(frame.columns))] = frame.copy()
            return old
        for c in frame.columns:
            old[c] = frame[c].values.copy()
        old.index = frame.index
        return old


class Fit:
    def __init__(self, sim, st, tag, case=None):
        self.case = case or Case(sim, st, tag)
        c = self.case
        form = sim.choose(3, 'list-form')
        lst = [lambda v: list(v), lambda v: tuple(v), lambda v: ','.join(v)][form]
        kw = {}
        if not (st.ident != 'auto' or c.values) or sim.flip(85 if st.ident == 'auto' else 30, 'give-treatment'):
            kw['treatment'] = lst(c.x)
        if st.ident == 'auto' and sim.flip(70, 'give-roles') or st.ident != 'auto' and sim.flip(20, 'give-roles'):
            kw['covariate'] = lst(['v1', 'v2'] + (c.x[:1] if sim.flip(20, 'treatment-among-covariates') else []))
            if st.est == 'iv':
                kw['instrument'] = lst(['w1'])
                kw['adjustment'] = lst(['w2'])
            elif st.est != 'bound':
                kw['adjustment'] = lst(['w1', 'w2'])
        if sim.flip(15, 'limit'):
            kw['treatment_count_limit'] = 2
        self.kw = kw

    def args(self):
        return self.case.data.copy(), copy.deepcopy(self.kw)

    def run(self, why, args=None):
        data, kw = self.args() if args is None else args
        why.fit(data, 'y', **kw)

    def damaged(self, sim):
        f = copy.copy(self)
        f.case = copy.copy(self.case)
        f.kw = dict(self.kw)
        df = self.case.data.copy()
        k = sim.choose(6, 'damage')
        if k == 0:
            df = df.drop(columns=[df.columns[sim.choose(df.shape[1], 'damage-column')]])
        elif k == 1:
            df = df.iloc[:sim.choose(4, 'rows-left')]
        elif k == 2:
            c = df.columns[sim.choose(df.shape[1], 'damage-column')]
            v = df[c].astype(object).tolist()
            v[sim.choose(len(v), 'damage-row')] = [1]
            df[c] = pd.Series(v, index=df.index, dtype=object)
        elif k == 3:
            f.kw['covariate'] = ['nosuch']
        elif k == 4:
            df[self.case.x[-1]] = df[self.case.x[-1]].iloc[0]
        else:
            df['y'] = np.nan
        f.case.data = df
        return f


def plain(v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return str(v)
    return getattr(v, '__name__', type(v).__name__)


def settings(sim):
    st = Settings(sim)
    sim.note('settings', st.name, sorted((k, plain(v)) for k, v in st.kw.items()))
    sim.mark(st.name)
    return st


def fresh(st, fit):
    W.PLAN.disarm()
    why = st.make()
    o = attempt(lambda: fit.run(why))
    return why if o.ok else None


# ---- queries ---------------------------------------------------------------------------------
class Ask:
    """one query; the arguments are drawn once and handed out as copies"""

    def __init__(self, sim, case, ref, what=None, no_qini=False):
        self.case = case
        names = ['effect', 'ite', 'individual', 'whatif', 'rloss', 'auuc', 'policy', 'uplift', 'graph', 'qini'][:10 - no_qini]
        self.what = what or names[sim.weighted([4, 4, 4, 4, 1, 3, 3, 3, 3, 2][:len(names)], 'query')]
        x = ref.treatment_ or case.x
        disc = all(t in case.values for t in x)
        pick = lambda c: sim.pick(case.values[c], 'value')
        test = case.test
        if len(case.data) >= len(test) and sim.flip(35, 'other-rows'):
            test = case.data.iloc[sim.shuffled(range(len(case.data)), 'test-pick')[:len(test)]].copy()
        a = dict(test_data=test)
        if self.what in ('effect', 'ite'):
            a['quantity'] = 'ATE' if self.what == 'effect' else 'ITE'
            if self.what == 'effect':
                a['return_detail'] = sim.flip(30, 'detail')
                if sim.flip(20, 'no-data'):
                    a['test_data'] = None
            if disc and sim.flip(25, 'combine') and len(x) <= 2:
                a['combine_treatment'] = True
            if sim.flip(35, 'control'):
                a['control'] = [pick(c) for c in x] if disc else [0.5] * len(x)
            if len(x) > 1 and sim.flip(35, 'one-treatment'):
                a['treatment'] = sim.pick([[x[-1]], (x[-1],), x[-1]] if disc else [[x[-1]]], 'treatment')
                if 'control' in a:
                    a['control'] = a['control'][-1:]
        elif self.what == 'individual':
            if sim.flip(40, 'control'):
                a['control'] = [pick(c) for c in x] if disc else [0.5] * len(x)
        elif self.what == 'whatif':
            t = x[sim.choose(len(x), 'which')]
            a['treatment'] = t
            a['new_value'] = pd.Series([pick(t) for _ in test.index] if disc else
                                       np.linspace(-1, 1, len(test)), index=test.index)
        elif self.what in ('rloss', 'auuc', 'qini'):
            a['scorer'] = self.what
            a['test_data'] = case.data
        elif self.what == 'policy':
            a['test_data'] = case.data
            a.update(max_depth=2, random_state=5)
            if disc and sim.flip(40, 'control'):
                a['control'] = [pick(c) for c in x[:2]]
        elif self.what == 'uplift':
            a['test_data'] = case.data
            if len(x) > 1:
                a['treatment'] = sim.pick([[x[0]], list(x[:2])], 'treatment')
        if case.y_values and self.what in ('effect', 'ite', 'individual', 'policy', 'uplift') and sim.flip(50, 'target'):
            a['target_outcome'] = sim.pick(case.y_values, 'target_outcome')
        self.a = a
        self.name = self.what + '(' + ','.join(k for k in a if k != 'test_data') + ')'

    def args(self, rows=None):
        a = copy.deepcopy(self.a)
        if rows is not None:
            a['test_data'] = a['test_data'].iloc[rows]
            if 'new_value' in a:
                a['new_value'] = a['new_value'].iloc[rows]
        return a

    def ask(self, why, a):
        w = self.what
        if w in ('effect', 'ite'):
            return why.causal_effect(**a)
        if w == 'individual':
            return why.individual_causal_effect(**a)
        if w == 'whatif':
            return why.whatif(**a)
        if w in ('rloss', 'auuc', 'qini'):
            np.random.seed(4)                                # the qini score is measured against random columns
            return why.score(**a)
        if w == 'policy':
            pi = why.policy_interpreter(**a)
            return pi.decide(self.case.test.copy()), pi.predict(self.case.test.copy())
        if w == 'uplift':
            um = why.uplift_model(**a)
            return um.get_gain(), um.get_qini(), um.auuc_score()
        g = why.causal_graph()
        return sorted((str(k), sorted(map(str, v))) for k, v in g.causation.items())

    def __call__(self, why, a=None, rows=None):
        a = self.args(rows) if a is None else a
        return attempt(lambda: self.ask(why, a))


def checked(st, ask, why, how, desk=None):
    """ask; the arguments come back as they were"""
    a = ask.args()
    if desk is not None and a['test_data'] is not None:
        a['test_data'] = desk.hand(a['test_data'])
    before = S.snap(a)
    got = ask(why, a)
    if S.snap(a) != before:
        raise Violation('arguments-changed', f'{st.name}.{ask.what}', f'{how}: {S.where(before, S.snap(a))}')
    return got


def rows_of(ask, got):
    """per row of the test data, the reported values"""
    v = got.val
    n = len(ask.a['test_data'])
    if ask.what == 'whatif':
        return [v[3][i] for i in range(n)]
    if ask.what == 'ite':
        return [tuple(c[i] for c in v[3]) for i in range(n)]
    if v[2] and isinstance(v[2][0], tuple):                   # one line per row and treatment
        k = len(v[2]) // n
        return [tuple(v[3][0][i * k:(i + 1) * k]) for i in range(n)]
    return [tuple(c[i] for c in v[3]) for i in range(n)]


def check_rows(sim, st, ask, ref, got):
    if ask.what not in ('ite', 'individual', 'whatif') or not got.ok:
        return
    rows = rows_of(ask, got)
    for i in sim.shuffled(range(len(rows)), 'check-row')[:2]:
        one = ask(ref, rows=[i])
        sim.count('rows asked alone')
        if not one.ok or not same(tuple(np.ravel(rows_of1(ask, one))), tuple(np.ravel(rows[i])), rtol=1e-6, atol=1e-8):
            sig = f'{st.name}.{ask.what}'
            if st.est == 'grf' and ask.a.get('combine_treatment') and len(ref.treatment_) > 1:
                sig = f'grf.{ask.what}:combine_treatment-of-several-treatments'
            raise Violation('row-depends-on-others', sig, f'{ask.name}: row {i} of {len(rows)}: {rows[i]}; alone {rows_of1(ask, one) if one.ok else one}')


def rows_of1(ask, one):
    b = copy.copy(ask)
    b.a = dict(ask.a, test_data=ask.a['test_data'].iloc[:1])
    return rows_of(b, one)[0]


def check_forms(sim, st, ask, ref, got):
    """the individual effect of a row is the effect causal_effect reports for that row and those values"""
    if ask.what != 'individual' or not got.ok or st.kw.get('fn_cost') is not None or not ref().discrete_treatment_:
        return
    x = ref().treatment_
    i, j = sim.choose(len(ask.a['test_data']), 'row'), sim.choose(len(x), 'treatment')
    row = ask.a['test_data'].iloc[[i]]
    why = ref()
    t = row[x[j]].tolist()[0]
    c = ask.a['control'][j] if 'control' in ask.a else why.x_encoders_[x[j]].classes_.tolist()[0]
    if t == c:
        return
    o = attempt(lambda: why.causal_effect(row, treatment=[x[j]], treat=[t], control=[c], quantity='ITE', target_outcome=ask.a.get('target_outcome')))
    if not o.ok:
        return
    sim.count('effects asked in two ways')
    a, b = got.val[3][0][i * len(x) + j], o.val[3][0][0]
    if not same(float(a), float(b), rtol=1e-6, atol=1e-8):
        raise Violation('effects-disagree', f'{st.name}.individual', f'{ask.name}: row {i}, {x[j]} {t} vs {c}: {a}; causal_effect: {b}')


def check_batch(sim, st, ask, ref, got):
    """when every row alone is answered, the rows together are answered too"""
    if got.ok or ask.what not in ('ite', 'individual', 'whatif'):
        return
    if all(ask(ref, rows=[i]).ok for i in range(len(ask.a['test_data']))):
        raise Violation('batch-refused', f'{st.name}.{ask.what}', f'{ask.name}: {got}; each row alone is answered')


def check_ask(sim, st, ask, why, refs, how, desk=None):
    got = checked(st, ask, why, how, desk)
    sim.note('ask', ask.name, got.ok, fp(got.val) if got.ok else got.exc)
    sim.mark('ask', ask.what, got.ok)
    if not got.ok:
        sim.count('refused')
        return got, refs
    sim.count('answered')
    left = [(n, f) for n, f in refs if outcome_same(ask(f()), got)]
    if not left:
        raise Violation('answer-differs', f'{st.name}.{ask.what}', f'{how}: {ask.name}: {got}; ' +
                        ('; '.join(f'{n}: {ask(f())}' for n, f in refs) or 'no complete fit'))
    return got, left


def must(sim, st, ask, why, mk, how, desk=None):
    got, _ = check_ask(sim, st, ask, why, [('new Why', mk)], how, desk)
    ref = ask(mk())
    if not outcome_same(ref, got):
        raise Violation('answer-differs', f'{st.name}.{ask.what}', f'{how}: {ask.name}: {got}; new Why: {ref}')
    check_rows(sim, st, ask, mk(), got)
    check_batch(sim, st, ask, mk(), got)
    check_forms(sim, st, ask, mk, got)


# ---- scenarios ---------------------------------------------------------------------------------
class Kept:
    """new objects, fitted once and copied before each use"""

    def __init__(self, why):
        self.why = why

    def __call__(self):
        return copy.deepcopy(self.why)


def fit_and_check(sim, st, why, given, shown, fit, how, kept, desk=None):
    """a fit on the object and on a new one; the passed things stay as they were"""
    args = fit.args()
    if desk is not None:
        args = desk.hand(args[0]), args[1]
    before, g0 = S.snap(args), S.snap(given)
    new = st.make()
    W.PLAN.disarm()
    perturb_rng(sim)
    on = attempt(lambda: fit.run(new))
    perturb_rng(sim)
    oo = attempt(lambda: fit.run(why, args))
    sim.note('fit', how, sorted(fit.kw), on.ok, oo.ok, on.exc)
    if on.ok != oo.ok:
        raise Violation('refit-differs', f'{st.name}.fit', f'{how}: {oo}; new Why: {on}')
    unchanged(st, why, given, shown, g0, args, before, f'{how} {sorted(fit.kw)}')
    if not on.ok:
        return None
    if (why.treatment_, why.adjustment_, why.covariate_, why.instrument_) != (new.treatment_, new.adjustment_, new.covariate_, new.instrument_):
        raise Violation('refit-differs', f'{st.name}.roles', f'{how}: {why.treatment_, why.adjustment_, why.covariate_, why.instrument_}; '
                        f'new Why: {new.treatment_, new.adjustment_, new.covariate_, new.instrument_}')
    sim.count('fits')
    return Kept(new)


def unchanged(st, why, given, shown, g0, args, before, how):
    if S.snap(args) != before:
        raise Violation('arguments-changed', f'{st.name}.fit', f'{how}: {S.where(before, S.snap(args))}')
    if S.snap(given) != g0:
        raise Violation('constructor-arguments-changed', f'{st.name}.fit', f'{how}: {S.where(g0, S.snap(given))}')
    if st.shown(why) != shown:
        raise Violation('settings-changed', f'{st.name}.fit', f'{how}: {S.where(shown, st.shown(why))}')


class Done(Exception):
    pass


def history(sim):
    try:
        _history(sim)
    except Done:
        sim.count('ended: clean fits refused')


def _history(sim):
    st = settings(sim)
    given = st.args()
    why = st.make(given)
    shown = st.shown(why)
    kept, fit = None, None
    desk = Desk() if sim.flip(50, 'same-frames') else None
    if desk is not None:
        sim.mark('same-frames')
    for s in range(sim.between(2, 4, 'steps')):
        op = sim.weighted([4, 3, 4, 1], 'op')
        if op == 0 or (fit is None and op != 1):
            nf = Fit(sim, st, str(s))
            k = fit_and_check(sim, st, why, given, shown, nf, f'fit {s}', kept, desk)
            if k is None:
                if fit is not None:                         # refused: the earlier fit or nothing
                    for j in range(2):
                        check_ask(sim, st, Ask(sim, fit.case, kept.why), why, [('previous fit', kept)], 'after a refused fit', desk)
                continue
            kept, fit = k, nf
        elif op == 1:
            kept, fit = failing(sim, st, why, given, shown, kept, fit, s)
        elif op == 2:
            for j in range(sim.between(1, 3, 'asks')):
                ask = Ask(sim, fit.case, kept.why)
                f = sim.weighted([5, 2], 'query-fault')
                if f:
                    broken_query(sim, ask, why, kept)
                must(sim, st, ask, why, kept, f'query {s}.{j}', desk)
        else:                                               # identify on other data, without fitting
            nf = Fit(sim, st, f'{s}i')
            kw = {k: v for k, v in nf.kw.items() if k in ('treatment', 'treatment_count_limit')}
            d = nf.case.data
            r1 = attempt(lambda: st.make().identify(d.copy(), 'y', **copy.deepcopy(kw)))
            r2 = attempt(lambda: why.identify(d.copy(), 'y', **copy.deepcopy(kw)))
            sim.note('identify', r1.ok, r2.ok)
            if st.ident != 'auto' or 'treatment' in kw:     # the default identifier ranks with an unseeded forest outside fit
                if not outcome_same(r1, r2):
                    raise Violation('identify-differs', f'{st.name}.identify', f'{r2}; new Why: {r1}')
            must(sim, st, Ask(sim, fit.case, kept.why, what='graph'), why, kept, 'after identify')
        if st.shown(why) != shown:
            raise Violation('settings-changed', f'{st.name}.query', f'step {s}: {S.where(shown, st.shown(why))}')
        if fit is not None and sim.flip(50, 'ask'):
            must(sim, st, Ask(sim, fit.case, kept.why), why, kept, f'after step {s}', desk)
    if fit is None:
        raise Skip('fits refused')


def broken_query(sim, ask, why, kept):
    other = kept()
    _, sites, _ = record_lines(lambda: ask(other))
    cp = choose_crash(sim, sites)
    if cp is None:
        return
    site, occ, nm, exc = cp
    _, fired = crash_at(lambda: ask(why), site, occ, exc)
    if fired:
        sim.fault('query-line-' + nm)


def failing(sim, st, why, given, shown, kept, fit, s):
    """a fit that fails; then questions; then a clean fit"""
    nf = Fit(sim, st, f'{s}f')
    refs = [('previous fit', kept)] if kept is not None else []
    args = nf.args()
    g0 = S.snap(given)
    how = sim.weighted([3, 5, 3], 'failure')
    what, o, fired = None, None, False
    if how == 2:
        c0 = W.PLAN.calls
        f1 = fresh(st, nf)
        n = W.PLAN.calls - c0
        if n:
            nm, mk = [('nuisance-model-error', lambda: W.NuisanceFailed('injected')), ('nuisance-interrupt', lambda: KeyboardInterrupt('injected'))][
                sim.weighted([3, 1], 'model-failure')]
            W.PLAN.arm(sim.choose(n, 'fail-at-call'), mk())
            before = S.snap(args)
            o = attempt(lambda: nf.run(why, args))
            fired = W.PLAN.fired
            W.PLAN.disarm()
            W.PLAN.fired = 0
            what = nm
            if fired:
                sim.fault(nm)
            if f1 is not None:
                refs.append(('attempted fit', Kept(f1)))
        else:
            how = 1
    if how == 0:
        nf = nf.damaged(sim)
        args = nf.args()
        before = S.snap(args)
        f1 = fresh(st, nf)
        o = attempt(lambda: nf.run(why, args))
        sim.fault('damaged-data')
        what = 'damaged data'
        if o.ok != (f1 is not None):
            raise Violation('refit-differs', f'{st.name}.fit', f'on damaged data {o}; a new Why {"accepts" if f1 is not None else "refuses"} it')
        if f1 is not None:
            refs.append(('attempted fit', Kept(f1)))
    elif how == 1:
        _, sites, _ = record_lines(lambda: attempt(lambda: nf.run(st.make())))
        cp = choose_crash(sim, sites, within=sim.pick([None, '/ylearn/api/'], 'within'))
        if cp is None:
            return kept, fit
        site, occ, nm, exc = cp
        before = S.snap(args)
        box = {}
        _, fired = crash_at(lambda: box.setdefault('o', attempt(lambda: nf.run(why, args))), site, occ, exc)
        o = box['o']
        what = f"{nm} before {site[0].split('/ylearn/')[-1]}:{site[1]}"
        if fired:
            sim.fault('line-' + nm)
            sim.mark('crash', site[0][-20:], site[1])
        f1 = fresh(st, nf)
        if f1 is not None:
            refs.append(('attempted fit', Kept(f1)))
    sim.note('failing fit', what, o.ok, o.exc)
    unchanged(st, why, given, shown, g0, args, before, f'failing fit ({what})')
    if o.ok and refs and refs[-1][0] == 'attempted fit':
        refs = refs[-1:]
    for j in range(sim.between(1, 3, 'asks')):
        src = nf if fit is None or refs and refs[-1][0] == 'attempted fit' and sim.flip(40, 'ask-rows-of') else fit
        known = refs[-1][1].why if src is nf and refs and refs[-1][0] == 'attempted fit' else kept.why if kept is not None else None
        if known is None:
            class known:
                treatment_ = src.case.x
        ask = Ask(sim, src.case, known, what=None if j else sim.pick(['graph', 'effect', 'individual', None], 'first-query'))
        _, refs = check_ask(sim, st, ask, why, refs, f'after a failed fit ({what})')
    if o.ok and refs and refs[0][0] == 'attempted fit':
        return refs[0][1], nf
    for t in range(3):
        nf = Fit(sim, st, f'{s}r{t}')
        k = fit_and_check(sim, st, why, given, shown, nf, f'fit after a failed fit ({what})', kept)
        if k is not None:
            must(sim, st, Ask(sim, nf.case, k.why), why, k, f'after a failed fit ({what}) and a complete one')
            return k, nf
    raise Done()


def threads(sim):
    for t in range(4):
        st = settings(sim)
        fit = Fit(sim, st, str(t))
        why = fresh(st, fit)
        if why is not None:
            break
    else:
        raise Skip('fits refused')
    kept = Kept(copy.deepcopy(why))
    shown = st.shown(why)
    nt = sim.between(2, 3, 'threads')
    asks = [[Ask(sim, fit.case, kept.why, no_qini=True) for _ in range(sim.between(1, 2, 'per-thread'))] for _ in range(nt)]
    got = [[None] * len(a) for a in asks]
    alone = [[a(kept()) for a in t] for t in asks]

    def worker(i):
        def go():
            for j, a in enumerate(asks[i]):
                got[i][j] = a(why)
        return go
    for _, exc in sched.run_threads(sim, [worker(i) for i in range(nt)]):
        if exc is not None:
            raise exc
    for i in range(nt):
        for a, g, r in zip(asks[i], got[i], alone[i]):
            sim.note('thread', i, a.name, g.ok, fp(g.val) if g.ok else g.exc)
            sim.mark('t', a.what, g.ok)
            sim.count('answered' if g.ok else 'refused')
            if not outcome_same(r, g):
                raise Violation('answer-differs', f'{st.name}.{a.what}', f'{a.name} with {nt} threads: {g}; alone {r}')
    if st.shown(why) != shown:
        raise Violation('settings-changed', f'{st.name}.query', S.where(shown, st.shown(why)))
    must(sim, st, asks[0][0], why, kept, 'after concurrent queries')


SCENARIOS = [('history', history, 7), ('threads', threads, 3)]
