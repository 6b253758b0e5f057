"""C18: answers do not depend on how the data are delivered."""
import copy
import warnings

import numpy as np
import pandas as pd

from dst.core import Skip, Violation, attempt, canon, fp, same
from dst.simjoblib import JobSim
from . import c13 as C13
from . import c15 as C15
from . import worlds as W

warnings.simplefilter('ignore')

RULE = ('One run: one object is fitted and queried; then the same table reaches an equal object in another way - other index labels, column order, '
        'columns nobody asked for, memory layout, read-only or strided buffers, narrower integers, one name as a string or a list; query rows '
        'reordered, duplicated, split into batches or alone - and each row must get the same answer.')
REAL = ['ylearn estimators, forests, trees, policy tree, interpreters, uplift model', 'pandas, numpy, scikit-learn nuisance models']
STUB = ['user models make their input contiguous before they delegate to scikit-learn']
ASSUMPTIONS = ['rounding may differ in the last places (relative tolerance 1e-6)',
               'a narrower dtype, a categorical column or a table without the columns a query does not use may be refused, but not answered differently']
QUICK_S = 45


# ---- deliveries ----------------------------------------------------------------------------
def _index(s, df):
    n = len(df)
    k = s.choose(7, 'index')
    p = s.perm(n, 'labels') if hasattr(s, 'perm') else list(np.random.RandomState(s.choose(1000, 'labels')).permutation(n))
    ix = [lambda: pd.RangeIndex(n), lambda: pd.Index([int(v) for v in p]), lambda: pd.Index([f'r{v}' for v in p]), lambda: pd.Index([0] * n),
          lambda: pd.MultiIndex.from_tuples([(v % 3, int(v)) for v in p]), lambda: pd.date_range('2020-01-01', periods=n)[::-1],
          lambda: pd.Index([np.nan if v == 0 else v / 2 for v in p])][k]()
    df = df.copy()
    df.index = ix
    return df, ['range', 'shuffled', 'string', 'repeated', 'multi', 'date', 'nan'][k]


def _columns(s, df):
    c = list(df.columns)
    np.random.RandomState(s.choose(1000, 'columns')).shuffle(c)
    return df[c], ''


def _extra(s, df):
    df = df.copy()
    n = len(df)
    k = s.choose(3, 'extra')
    v = [np.full(n, np.nan), np.array([None, 'q', 3.5, ('t',)] * n, dtype=object)[:n], np.arange(n) * 1e6][k]
    df.insert(s.choose(df.shape[1] + 1, 'at'), f'_extra{df.shape[1]}', v)
    return df, ['nan', 'object', 'large'][k]


def _memory(s, df):
    k = s.choose(4, 'memory')
    n = len(df)
    if k == 0:                                   # one block per column, read-only
        d = {}
        for c in df.columns:
            a = df[c].to_numpy().copy()
            a.setflags(write=False)
            d[c] = a
        out = pd.DataFrame(d, index=df.index, copy=False)
    elif k == 1:                                 # strided views
        out = pd.concat([df, df]).iloc[np.repeat(np.arange(n), 2)].iloc[::2]
    elif k == 2:                                 # many unconsolidated blocks
        out = pd.DataFrame(index=df.index)
        for c in df.columns:
            out[c] = df[c].to_numpy()
    else:
        out = df.copy()                          # consolidated
    return out, ['read-only', 'strided', 'blocks', 'consolidated'][k]


def _dtypes(s, df):
    df = df.copy()
    for c in df.columns:
        t = df[c].dtype
        if t.kind == 'i':
            df[c] = df[c].astype(s.pick(['int32', 'int8', 'float64'], 'int') if abs(df[c]).max() < 100 else 'int32')
        elif t == object and all(isinstance(v, str) for v in df[c]):
            df[c] = df[c].astype(s.pick(['category', 'object'], 'text'))
    return df, 'dtypes'


HOW = [('index', _index, 5), ('columns', _columns, 3), ('extra', _extra, 2), ('memory', _memory, 3), ('dtypes', _dtypes, 1)]


def deliver(s, df, allowed):
    """another delivery of the same table: (table, what was done, may be refused)"""
    done, lenient = [], False
    hows = [h for h in HOW if h[0] in allowed]
    for _ in range(1 + s.choose(2, 'deliveries')):
        name, f, _w = hows[s.weighted([h[2] for h in hows], 'how')]
        df, what = f(s, df)
        done.append(f'{name} {what}'.strip())
        s.fault('delivery-' + name)
        lenient |= name == 'dtypes'
    return df, done, lenient


def rows(s, n):
    k = s.choose(5, 'rows')
    if k == 0:
        r = np.random.RandomState(s.choose(1000, 'order')).permutation(n)
    elif k == 1:
        r = np.arange(n)[s.choose(n, 'row'):][:1]
    elif k == 2:
        r = np.arange(s.between(2, n, 'first'))
    elif k == 3:
        r = np.repeat(np.arange(n), 2)
    else:
        r = np.arange(n)[::-1]
    s.fault('rows-' + ['reordered', 'alone', 'batch', 'duplicated', 'reversed'][k])
    return r, ['reordered', 'alone', 'batch', 'duplicated', 'reversed'][k]


ROLES = ['outcome', 'treatment', 'covariate', 'adjustment', 'instrument']


def roles(s, kw):
    out = dict(kw)
    done = []
    for k in ROLES:
        v = kw.get(k)
        if isinstance(v, str) and s.flip(50, 'as-list'):
            out[k] = [v]
            done.append(k)
        elif isinstance(v, list) and len(v) == 1 and s.flip(50, 'as-name'):
            out[k] = v[0]
            done.append(k)
    return out, done


PER_ROW = {'estimate', 'effect_nji', 'apply', 'predict_opt_effect', 'predict_ind', 'decide', 'predict'}
UPLIFT_DELIVERIES = {'index', 'memory', 'dtypes'}


def plain(v):
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return v.to_numpy()
    return v


def ask(kind, q, e, data):
    if 'data' not in q.kw or q.f is None:
        return q(e)
    kw = dict(q.kw, data=data)
    return attempt(lambda: plain(W._numpy(getattr(e, q.f)(**kw))))


def estimators(s):
    kind = W.pick_kind(s)
    w = kind.world(s)
    sp = kind.spec(s, w)
    qs = [q for q in kind.queries(s, w, s.between(1, 3, 'queries'))]
    s.note('kind', kind.name, kind.cfg, [q.name for q in qs])
    s.mark(kind.name)
    if kind.name == 'RLoss':
        raise Skip('scores another estimator')
    if kind.name == 'NP2SLS' and kind.cfg['disc']:
        raise Skip('powers of a 0/1 treatment are collinear: the coefficients are rounding errors')
    tol = dict(rtol=1e-3, atol=1e-5) if kind.name == 'DeepIV' else dict(rtol=1e-6, atol=1e-8)
    seed = s.choose(1000, 'process generator')
    dk = 'df_lift' if kind.name == 'UpliftModel' else 'data'
    e = kind.make()

    def fit(e, **over):
        np.random.seed(seed)
        if isinstance(sp, W.SeededSpec):
            sp.call(e, **over)
        else:
            sp.call(e, **over)
    if not attempt(fit, e).ok:
        raise Skip('refused')
    if kind.name == 'NP2SLS' and np.abs(np.asarray(getattr(getattr(e.y_model, 'm_', e.y_model), 'coef_', 0))).max() > 1e4:
        raise Skip('collinear powers: the coefficients are rounding errors')
    base = [ask(kind, q, e, q.kw.get('data')) for q in qs]
    s.note('base', [(o.ok, fp(o.val) if o.ok else o.exc) for o in base])
    for _ in range(s.between(1, 2, 'variants')):
        done, lenient, over = [], False, {}
        e2 = e
        if s.flip(65, 'fit again'):
            e2 = kind.make()
            if s.flip(85, 'other delivery'):
                d, done, lenient = deliver(s, sp.kwargs[dk], UPLIFT_DELIVERIES if dk == 'df_lift' else {h[0] for h in HOW})
                over[dk] = d
            kw, which = roles(s, {k: sp.kwargs[k] for k in ROLES if k in sp.kwargs})
            over.update(kw)
            done = done + [f'{k} in another form' for k in which]
            o = attempt(fit, e2, **over)
            s.note('refit', done, o.ok)
            if not o.ok:
                if lenient:
                    s.count('refused-dtype')
                    continue
                raise Violation('refused', f'{kind.name}.fit', f'the same table with {done} is refused: {o}')
        for q, b in zip(qs, base):
            if q.op == 'qini_score':
                continue
            data, r, rd, ql = q.kw.get('data'), None, [], lenient
            # without covariates DoublyRobust has one answer per training row; the bounds are relative to the outcomes of the given rows
            fixed = kind.name == 'DoublyRobust' and 'covariate' not in sp.kwargs or kind.name == 'ApproxBound'
            if data is None and 'data' in q.kw and q.f is not None and dk == 'data' and not fixed and s.flip(60, 'training table given'):
                data, rd, l2 = deliver(s, sp.kwargs[dk], {h[0] for h in HOW})
                ql |= l2
                rd = ['training table given'] + rd
                s.fault('training-table-given')
            elif data is not None and q.f is not None:
                if s.flip(60, 'query delivery'):
                    if s.flip(15, 'needed columns only'):
                        keep = [c for c in data.columns if c in w.v + w.w]
                        data = data[keep]
                        rd.append('only the covariates')
                        ql = True
                    data, more, l2 = deliver(s, data, {h[0] for h in HOW})
                    rd += more
                    ql |= l2
                if s.flip(60, 'query rows') and not fixed:
                    r, how = rows(s, len(data))
                    data = data.iloc[r]
                    rd.append('rows ' + how)
            elif not done and e2 is e:
                continue
            o = ask(kind, q, e2, data)
            expect = b
            what = f'{q.name}, fit: {done}, query: {rd}'
            s.count('answers')
            if not b.ok:
                continue
            if not o.ok:
                if ql:
                    s.count('refused')
                    continue
                raise Violation('refused', f'{kind.name}.{q.op}', f'{what}: {o}')
            bv, ov = canon(plain(b.val)), canon(plain(o.val))
            if data is None or r is None:
                # training data answered in the order of the rows: the same
                if not same_values(bv, ov, tol):
                    raise Violation('other-answer', f'{kind.name}.{q.op}', f'{what}: {short(bv)} / {short(ov)}')
                continue
            n = len(q.kw['data'])
            if isinstance(bv, np.ndarray) and bv.ndim and bv.shape[0] == n and q.op in PER_ROW:
                if not same_values(bv[r], ov, tol):
                    raise Violation('row-answer', f'{kind.name}.{q.op}', f'{what}: {short(bv[r])} / {short(ov)}')
            elif sorted(r) == list(range(n)) or 'duplicated' in rd[-1]:
                if isinstance(bv, np.ndarray) and q.op == 'estimate' and not same_values(bv, ov, tol):
                    raise Violation('mean-answer', f'{kind.name}.{q.op}', f'{what}: {short(bv)} / {short(ov)}')


def same_values(a, b, tol):
    return same(strip(a), strip(b), **tol)


def strip(v):
    """without the index labels, which are delivery"""
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        if v[0] == 'df':
            return ('df', v[1], tuple(strip(x) for x in v[3]))
        if v[0] == 'series':
            return ('series', strip(v[3]))
    if isinstance(v, tuple):
        return tuple(strip(x) for x in v)
    return v


def short(v):
    return str(np.asarray(v, dtype=object).ravel()[:6] if isinstance(v, np.ndarray) else v)[:160].replace('\n', ' ')


# ---- the origin and unit of the outcome -----------------------------------------------------
UNITS = ['SLearner', 'TLearner', 'XLearner', 'DoubleML', 'DoublyRobust', 'CausalTree', 'GRForest', 'CausalForest', 'NP2SLS', 'Permuted']


def units(s):
    kinds = [k for k in W.ALL if k.name in UNITS]
    kind = W.pick_kind(s, kinds)
    if kind.cfg.get('ykind', 'cont') not in ('cont', 'cont2') or kind.cfg.get('disc') and kind.name in ('SLearner', 'TLearner', 'XLearner'):
        raise Skip('discrete outcome')
    w = kind.world(s)
    if w.ykind not in ('cont', 'cont2'):
        raise Skip('discrete outcome')
    sp = kind.spec(s, w)
    qs = [q for q in kind.queries(s, w, s.between(1, 2, 'queries')) if q.op in ('estimate', 'effect_nji') and q.kw.get('quantity') != 'CF']
    s.note('kind', kind.name, kind.cfg, [q.name for q in qs])
    s.mark('units', kind.name)
    if not qs:
        raise Skip('no effect asked for')
    e = kind.make()
    if not attempt(sp.call, e).ok:
        raise Skip('refused')

    def scaled(d, f):
        d = d.copy()
        for c in w.y:
            d[c] = f(d[c])
        return d
    how = s.choose(2, 'how')
    if how and (kind.name in ('CausalTree', 'Permuted') or kind.cfg.get('min_samples_leaf', 3) < 3):
        raise Skip('leaves may lack one of the groups')
    f = [lambda y: y * 4.0, lambda y: y * 0.0 + 5.0][how]
    s.fault(['other-unit', 'constant-outcome'][how])
    e2 = kind.make()
    o = attempt(sp.call, e2, data=scaled(sp.kwargs['data'], f))
    if not o.ok:
        if how:
            raise Skip('constant outcome refused')
        raise Violation('refused', f'{kind.name}.fit', f'the outcome in another unit is refused: {o}')
    for q in qs:
        d = q.kw.get('data')
        b = ask(kind, q, e, d)
        a = ask(kind, q, e2, None if d is None else scaled(d, f))
        s.count('answers')
        if not b.ok:
            continue
        if not a.ok:
            raise Violation('refused', f'{kind.name}.{q.op}', f'{q.name} of the outcome {["times 4", "constant"][how]}: {a}')
        bv, av = np.asarray(plain(b.val), dtype=float), np.asarray(plain(a.val), dtype=float)
        want = bv * 4 if how == 0 else np.zeros_like(bv)
        s.note(q.name, fp(bv), fp(np.round(av, 6)))
        bad = bv.shape != av.shape or not np.allclose(want, av, rtol=1e-6, atol=1e-6, equal_nan=True)
        if bad and how and bv.shape == av.shape:
            # a row whose neighbours have all the same treatment is 0/0: only an effect proportional to the constant is one
            hit = np.abs(av) > 1e-6
            for m in (4 / 3, 1.37, 1.711, 0.953, 1e3 / 7):
                def const(y):
                    return y * 0.0 + 5.0 * m
                e3 = kind.make()
                sp.call(e3, data=scaled(sp.kwargs['data'], const))
                cv = np.asarray(plain(ask(kind, q, e3, None if d is None else scaled(d, const)).val), dtype=float)
                hit &= np.isclose(cv, av * m, rtol=1e-4, atol=1e-9)
            bad = bool(np.any(hit))
            s.count('proportional' if bad else 'no-neighbours')
        if bad:
            raise Violation('unit-of-outcome', f'{kind.name}.{q.op}',
                            f'{q.name} of the outcome {["times 4", "constant"][how]}: {short(want)} expected, {short(av)}')


# ---- the rows an answer comes from ------------------------------------------------------------
def influence(s):
    """a tree answers from the rows of its sub-sample: at most that many training rows can matter"""
    k = [k for k in W.ALL if k.name == 'GRForest'][0]
    kind = W.pick_kind(s, [k])
    w = kind.world(s)
    sp = kind.spec(s, w)
    n = len(w.df)
    sub = s.between(max(3, n // 4), n - 1, 'sub-sample')
    cfg = dict(kind.cfg, n_estimators=1, sub_sample_num=sub, min_samples_leaf=[1, 3, max(4, n // 2)][s.choose(3, 'leaf')])
    cfg['honest_subsample_num'] = [None, 0.5, max(1, sub // 3)][s.choose(3, 'honest')]
    test = w.test if s.flip(50, 'test') else w.df
    s.note('forest', cfg, n, sub)
    s.mark('influence', cfg['min_samples_leaf'] > 3, cfg['honest_subsample_num'])

    def answers(df):
        kind.cfg = cfg
        e = kind.make()
        sp.call(e, data=df)
        return np.asarray(e.estimate(data=test), dtype=float)
    try:
        base = answers(sp.kwargs['data'])
    except ValueError:
        raise Skip('refused')
    moved = 0
    for i in range(n):
        df = sp.kwargs['data'].copy()
        for c in w.y:
            df.loc[df.index[i], c] += 10.0
        a = answers(df)
        moved += a.shape != base.shape or not np.allclose(a, base, rtol=1e-7, atol=1e-9, equal_nan=True)
    s.count('rows-moved', n)
    s.note('moved', moved)
    if moved > sub:
        raise Violation('influence', 'GRForest.estimate', f'{moved} of {n} training rows matter to one tree over a sub-sample of {sub} rows')


# ---- the whole workflow ------------------------------------------------------------------------
WHY_DELIVERIES = {'index', 'memory'}


def why(s):
    """Why.fit and its queries with the same tables delivered in another way"""
    st = C13.settings(s)
    fit = C13.Fit(s, st, 'a')
    a = C13.fresh(st, fit)
    if a is None:
        raise Skip('refused')
    asks = [C13.Ask(s, fit.case, a, no_qini=True) for _ in range(s.between(1, 3, 'queries'))]
    base = [q(a) for q in asks]
    s.note('base', [(q.name, o.ok, fp(strip(canon(o.val))) if o.ok else o.exc) for q, o in zip(asks, base)])
    b, done = a, []
    if s.flip(70, 'fit again'):
        f2 = copy.copy(fit)
        f2.case = copy.copy(fit.case)
        f2.case.data, done, _ = deliver(s, fit.case.data, WHY_DELIVERIES)
        b = st.make()
        o = attempt(lambda: f2.run(b))
        if not o.ok:
            raise Violation('refused', 'Why.fit', f'{st.name}: the same table with {done} is refused: {o}')
        for k in ('treatment_', 'adjustment_', 'covariate_', 'instrument_', 'outcome_'):
            if not same(canon(getattr(a, k, None)), canon(getattr(b, k, None))):
                raise Violation('other-answer', 'Why.fit', f'{st.name} {done}: {k} {getattr(a, k, None)} / {getattr(b, k, None)}')
    for q, o in zip(asks, base):
        if not o.ok or q.what == 'graph':
            continue
        kw, rd = q.args(), []
        if kw.get('test_data') is not None and s.flip(70, 'query delivery'):
            d = kw['test_data']
            kw['test_data'], rd, _ = deliver(s, d, WHY_DELIVERIES)
            if 'new_value' in kw:
                kw['new_value'] = pd.Series(kw['new_value'].to_numpy(), index=kw['test_data'].index)
        c = q(b, kw)
        s.count('answers')
        what = f'{st.name} {q.name}, fit: {done}, query: {rd}'
        if not c.ok:
            raise Violation('refused', f'Why.{q.what}', f'{what}: {c}')
        if not same_values(canon(o.val), canon(c.val), dict(rtol=1e-6, atol=1e-8)):
            raise Violation('other-answer', f'Why.{q.what}', f'{what}: {short(canon(o.val))} / {short(canon(c.val))}')


# ---- causal discovery ---------------------------------------------------------------------------
def discovery(s):
    """the discovered matrix belongs to the columns: row labels, memory and the kind of table play no part"""
    kind = C15.pick_kind(s)
    d = s.between(2, 4, 'columns')
    names = s.pick(C15.NAMES + [[0, 1, 2, 3]] * 3, 'names')[:d]      # ties are broken by name: a matrix has the names 0, 1, ...
    mk = kind.init(s)
    kw = kind.call(s)
    df = pd.DataFrame(C15.make_data(s, kind, d, kw, 'a'), columns=names)
    s.mark('discovery', kind.name)

    def learn(data):
        out, _ = C15.do_call(s, mk(3), data, kw, None, 7)
        if out.ok:
            v = C15._keep['r']
            out.val = [np.asarray(x, dtype=float) for x in (v if isinstance(v, tuple) else (v,))]
        return out
    base = learn(df.copy())
    s.note('base', kind.name, base.ok)
    if not base.ok:
        raise Skip('refused')
    for _ in range(s.between(1, 2, 'variants')):
        if names == list(range(d)) and s.flip(60, 'matrix'):
            # in the same memory order: a rounding difference may turn an edge around
            d2, done = np.array(df.copy().to_numpy(), order='K'), ['ndarray']
            d2.setflags(write=s.flip(50, 'writable'))
            s.fault('delivery-ndarray')
        else:
            d2, done, _ = deliver(s, df, {'index'})
        o = learn(d2)
        s.count('answers')
        if not o.ok:
            raise Violation('refused', kind.name, f'{done}: {o}')
        if not all(same(canon(x), canon(y), rtol=1e-5, atol=1e-7) for x, y in zip(base.val, o.val)):
            raise Violation('other-answer', kind.name, f'{done}: {base.val} / {o.val}'.replace(chr(10), ' '))


def simulated_workers(fn):
    def run(s):
        with JobSim(s, mode='order'):
            fn(s)
    return run


SCENARIOS = [('estimators', simulated_workers(estimators), 8), ('units', simulated_workers(units), 2),
             ('influence', simulated_workers(influence), 1),
             ('why', simulated_workers(why), 4), ('discovery', discovery, 1)]
