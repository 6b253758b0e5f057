"""C17: fitted data transformers are pure, refittable and crash-safe."""
import copy
import pickle
import warnings

import numpy as np
import pandas as pd
from sklearn.compose import make_column_selector
from sklearn.impute import SimpleImputer
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from ylearn import sklearn_ex as skex

from dst import peers, sched
from dst.core import Skip, Violation, attempt, fp, outcome_same, same
from dst.tracer import choose_crash, crash_at, record_lines
from . import snap as S

warnings.simplefilter('ignore')

RULE = ('One run: one transformer goes through a seeded history of fits (some failing on damaged data or interrupted at a chosen line), '
        'transforms of row subsets, restores from pickle or copies, here or in another process, and concurrent transforms; every answer '
        'is compared row by row with a new transformer fitted once.')
REAL = ['ylearn.sklearn_ex encoders, DataCleaner, DataFrameMapper, FeatureImportancesSelectionTransformer, general_preprocessor',
        'scikit-learn', 'pickle']
STUB = ['thread scheduling (seeded, at ylearn source lines)', 'interruption at chosen source lines']
ASSUMPTIONS = ['values to be transformed are of the kinds seen in fitting (new categories included)',
               'scikit-learn transformers inside are correct themselves']
QUICK_S = 45
HASHSEEDS = (11, 4242)


# ---- data ----------------------------------------------------------------------------------
class Table:
    """columns of seeded kinds; frames of the same kinds with different values"""
    KINDS = ['num', 'num-nan', 'int', 'bool', 'str', 'str-nan', 'cat', 'numstr', 'const', 'id', 'inf', 'mix']

    def __init__(self, sim, kinds=None, names=None):
        names = names or sim.pick([['a', 'b', 'c', 'd', 'e'], ['x9', 'x10', 'z', 'A', 'y_'], ['k', 'j', 'i', 'h', 'g']], 'names')
        m = sim.between(2, 5, 'columns')
        self.cols = [(names[i], sim.pick(kinds or self.KINDS, 'column-kind')) for i in range(m)]

    def frame(self, sim, tag, odd=False):
        n = sim.between(6, 16, 'rows')
        rs = sim.nprng('data' + tag)
        d = {}
        for c, k in self.cols:
            if k in ('num', 'num-nan', 'inf'):
                v = rs.normal(size=n) * 3 + rs.choice([0, 50])
                if k == 'num-nan':
                    v[rs.rand(n) < 0.3] = np.nan
                    v[0] = 1.0
                if k == 'inf':
                    v[rs.rand(n) < 0.2] = np.inf
                    v[0] = 1.0
            elif k == 'int':
                v = rs.randint(0, 4, n) + rs.choice([0, 300])
            elif k == 'bool':
                v = rs.rand(n) < 0.5
                v[:2] = [True, False]
            elif k in ('str', 'str-nan', 'cat', 'mix'):
                v = np.array(['u', 'v', 'w', 'zz'], dtype=object)[rs.randint(0, 3 + odd, n)]
                v[:2] = ['u', 'v']
                if k == 'str-nan':
                    v[rs.rand(n) < 0.3] = np.nan
                    v[0] = 'u'
                if k == 'cat':
                    v = pd.Categorical(v)
            elif k == 'numstr':
                v = np.array([str(x) for x in rs.randint(0, 5, n)], dtype=object)
            elif k == 'const':
                v = np.full(n, rs.choice([1.0, 2.0]))
                if rs.rand() < 0.4:
                    v[-1] = 7.0                                # constant in one frame, not in another
            else:
                v = np.array([f'id{x}' for x in rs.permutation(n)], dtype=object)
                if rs.rand() < 0.4:
                    v[:] = v[0]
                    v[1] = 'id-other'
            d[c] = v
        df = pd.DataFrame(d)
        if sim.flip(35, 'odd-index'):
            df.index = rs.permutation(n) + 10
        return df

    def label(self, sim, df, nan=False):
        rs = sim.nprng('label')
        y = rs.randint(0, 2, len(df))
        y[:2] = [0, 1]
        if sim.flip(50, 'regression-label'):
            y = y + rs.normal(size=len(df))
            if nan and sim.flip(50, 'nan-label'):
                y[2] = np.nan
        return pd.Series(y, index=df.index, name='label')


def damaged(sim, df):
    df = df.copy()
    k = sim.choose(3, 'damage')
    if k == 0:
        c = sim.choose(df.shape[1], 'damage-col')
        v = df.iloc[:, c].astype(object).to_list()
        v[sim.choose(len(v), 'damage-row')] = [1, 2]                 # unhashable cell
        return df.assign(**{str(df.columns[c]): pd.Series(v, index=df.index, dtype=object)})
    if k == 1:
        c = sim.choose(df.shape[1], 'damage-col')
        v = df.iloc[:, c].astype(object).to_list()
        for i in range(0, len(v), 2):
            v[i] = {'o': 1}
        return df.assign(**{str(df.columns[c]): pd.Series(v, index=df.index, dtype=object)})
    return df.iloc[:0]


# ---- transformers ---------------------------------------------------------------------------
class Kind:
    def __init__(self, name, make, kinds=None, array=False, label=0, inverse=False):
        self.name, self.make, self.kinds, self.array, self.label, self.inverse = name, make, kinds, array, label, inverse


def _cleaner(s):
    kw = dict(drop_constant_columns=s.flip(70, 'drop-const'), drop_idness_columns=s.flip(70, 'drop-id'),
              drop_duplicated_columns=s.flip(30, 'drop-dup'), correct_object_dtype=s.flip(75, 'correct'),
              reduce_mem_usage=s.flip(20, 'reduce'), int_convert_to=[None, 'float'][s.choose(2, 'int-to')],
              replace_inf_values=[np.nan, None][s.choose(2, 'inf-to')])
    if s.flip(20, 'nan-chars'):
        kw['nan_chars'] = ['w']
    if s.flip(20, 'reserve'):
        kw['reserve_columns'] = ['a', 'x9', 'k']
    if s.flip(20, 'drop-columns'):
        kw['drop_columns'] = ['b', 'x10', 'j']
    return lambda: skex.DataCleaner(**copy.deepcopy(kw))


def _mapper(s):
    cat = make_column_selector(dtype_include=['object', 'category'])
    num = make_column_selector(dtype_include='number')
    sc = s.choose(3, 'num-transformer')
    default = [False, None][s.choose(2, 'default')]
    df_out, input_df, single = s.flip(70, 'df_out'), s.flip(70, 'input_df'), s.flip(30, 'alias')

    def make():
        nt = [SimpleImputer(strategy='mean'), StandardScaler(), [SimpleImputer(strategy='median'), MinMaxScaler()]][sc]
        ct = [SimpleImputer(strategy='constant', fill_value=''), skex.SafeOrdinalEncoder()]
        f = [(cat, ct), (num, nt) + (({'alias': 'n'},) if single else ())]
        return skex.DataFrameMapper(f, default=default, df_out=df_out, input_df=input_df)
    return make


def _general(s):
    sc = s.flip(50, 'number_scaler')
    return lambda: skex.general_preprocessor(number_scaler=sc)


def _ordinal(s):
    dt = [np.float64, np.int32][s.choose(2, 'dtype')]
    return lambda: skex.SafeOrdinalEncoder(dtype=dt)


def _onehot(s):
    kw = [dict(handle_unknown='ignore'), dict(handle_unknown='infrequent_if_exist', min_frequency=2),
          dict(handle_unknown='ignore', drop='if_binary')][s.choose(3, 'onehot')]
    return lambda: skex.ArrayOneHotEncoder(**kw)


def _select(s):
    kw = [dict(strategy='number', number=2), dict(strategy='quantile', quantile=0.4), dict(threshold=0.01), {}][s.choose(4, 'strategy')]
    kw = dict(kw, data_clean=s.flip(60, 'clean'))
    return lambda: skex.FeatureImportancesSelectionTransformer(**kw)


CATS = ['str', 'str-nan', 'cat', 'numstr', 'int', 'mix']
PLAIN = ['num', 'num-nan', 'int', 'bool', 'str', 'str-nan', 'cat', 'numstr', 'const']
KINDS = [(Kind('cleaner', _cleaner, label=1), 4), (Kind('mapper', _mapper, PLAIN), 3), (Kind('general', _general, PLAIN), 3),
         (Kind('ordinal', _ordinal, CATS, array=True, inverse=True), 3),
         (Kind('onehot', _onehot, ['str', 'cat', 'numstr', 'int'], array=True, inverse=True), 2),
         (Kind('select', _select, PLAIN, label=2), 1)]


def pick(sim):
    k = KINDS[sim.weighted([w for _, w in KINDS], 'transformer')][0]
    sim.count('transformer:' + k.name)
    sim.mark(k.name)
    return k, k.make(sim)


class Fit:
    """one fit: how it is called and on what"""

    def __init__(self, sim, kind, table, tag, odd=False):
        self.df = table.frame(sim, tag, odd)
        self.y = table.label(sim, self.df, nan=kind.name == 'cleaner') if kind.label == 2 or kind.label == 1 and sim.flip(50, 'with-y') \
            else None
        self.method = 'fit_transform' if kind.name == 'cleaner' or (kind.name != 'select' and sim.flip(50, 'fit_transform')) else 'fit'
        self.asarray = kind.array and sim.flip(40, 'as-array')
        self.g = sim.choose(9999, 'process-seed')
        self.kind = kind

    def x(self, df=None):
        df = self.df if df is None else df
        return df.astype(object).to_numpy() if self.asarray else df.copy()

    def args(self):
        return (self.x(),) if self.y is None else (self.x(), self.y.copy())

    def run(self, t, args=None, keep=False):
        np.random.seed(self.g)
        a = self.args() if args is None else args
        r = getattr(t, self.method)(*a)
        return r if keep and self.method == 'fit_transform' else None

    def damaged(self, sim):
        f = copy.copy(self)
        f.df = damaged(sim, self.df)
        if f.y is not None:
            f.y = f.y.iloc[:len(f.df)]
        f.asarray = False
        return f


class Ask:
    """transform of some rows"""

    def __init__(self, sim, kind, fit, table, tag):
        src = fit.df if sim.flip(50, 'own-rows') else table.frame(sim, 'q' + tag, odd=True)
        n = sim.between(1, len(src), 'ask-rows')
        rows = sim.shuffled(range(len(src)), 'ask-order')[:n]
        if sim.flip(20, 'repeat-row'):
            rows = rows + rows[:1]
        self.df = src.iloc[rows]
        self.fit, self.kind = fit, kind
        self.y = pd.Series(np.arange(len(rows)) * 1.0, index=self.df.index) if kind.name == 'cleaner' and sim.flip(25, 'ask-y') else None

    def x(self, df=None):
        return self.fit.x(self.df if df is None else df)

    def __call__(self, t, df=None, x=None):
        x = self.x(df) if x is None else x
        if self.y is not None and df is None:
            return attempt(lambda: t.transform(x, self.y.copy()))
        return attempt(lambda: t.transform(x))


def fresh(mk, fit):
    t = mk()
    o = attempt(lambda: fit.run(t))
    return t if o.ok else None


def rows_of(v):
    """list of per-row values of a transform result"""
    if isinstance(v, tuple):                 # canonical DataFrame
        if v[0] == 'df':
            return [(v[1], v[2][i], tuple(_cell(c, i) for c in v[3])) for i in range(len(v[2]))]
        if v[0] == 'arr':
            w = v[1][1]
            return [v[2][i * w:(i + 1) * w] for i in range(v[1][0])]
        raise TypeError(v[0])
    return [v[i] for i in range(len(v))]


def _cell(c, i):
    v = c[i] if isinstance(c, np.ndarray) else c[2][i]
    if isinstance(v, (np.generic,)):
        v = v.item()
    return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


def check_rows(sim, ask, ref, got, sig, how):
    """every row alone, answered by the reference, is what the batch answered for it"""
    if not got.ok or ask.y is not None:
        return
    batch = rows_of(got.val)
    if len(batch) != len(ask.df):
        raise Violation('rows-lost', sig, f'{how}: {len(batch)} rows for {len(ask.df)}')
    for i in sim.shuffled(range(len(batch)), 'check-row')[:3]:
        one = ask(ref, ask.df.iloc[[i]])
        sim.count('rows compared')
        if not one.ok or not same(rows_of(one.val)[0], batch[i]):
            raise Violation('row-depends-on-others', sig, f'{how}: row {ask.df.iloc[i].to_dict()} in a batch {batch[i]}; alone {one}')


def check_ask(sim, ask, t, refs, sig, how):
    """the answer is that of one of the reference transformers; returns those still possible"""
    x = ask.x()
    before = S.snap(x)
    got = ask(t, x=x)
    sim.note('ask', how, got.ok, fp(got.val) if got.ok else got.exc)
    sim.mark('ask', how, got.ok)
    if S.snap(x) != before:
        raise Violation('input-changed', sig, f'{how}: transform changed its input: {S.where(before, S.snap(x))}')
    if not got.ok:
        sim.count('refused')
        return got, refs
    sim.count('answered')
    left = [(n, r) for n, r in refs if outcome_same(ask(r), got)]
    if not left:
        raise Violation('answer-differs', sig, f'{how}: {got}; ' + ('; '.join(f'{n}: {ask(r)}' for n, r in refs) or 'no complete fit'))
    check_rows(sim, ask, left[0][1], got, sig, how)
    return got, left


def must(sim, ask, t, ref, sig, how):
    got, _ = check_ask(sim, ask, t, [('new transformer', ref)], sig, how)
    a = ask(ref)
    if not outcome_same(a, got):
        raise Violation('answer-differs', sig, f'{how}: {got}; new transformer: {a}')


def remote(blob, x, y):
    t = pickle.loads(blob)
    return attempt(lambda: t.transform(x) if y is None else t.transform(x, y))


def history(sim):
    kind, mk = pick(sim)
    sig = kind.name
    table = Table(sim, kind.kinds)
    t = mk()
    ref, fit = None, None
    for s in range(sim.between(2, 5, 'steps')):
        op = sim.weighted([5, 3, 3, 3], 'op') if ref is not None else 0
        if op == 0:                                              # fit
            if ref is not None and sim.flip(30, 'other-table'):
                table = Table(sim, kind.kinds)
            nf = Fit(sim, kind, table, str(s), odd=sim.flip(30, 'more-categories'))
            how = f'{nf.method} {s}'
            x = nf.args()
            before = S.snap(x)
            new = mk()
            on = attempt(lambda: nf.run(new, keep=True))
            oo = attempt(lambda: nf.run(t, x, keep=True))
            sim.note('fit', s, nf.method, oo.ok, on.ok)
            if S.snap(x) != before:
                raise Violation('input-changed', sig, f'{how} changed its input: {S.where(before, S.snap(x))}')
            if not outcome_same(on, oo):
                raise Violation('refit-differs', sig, f'{how}: {oo}; new transformer: {on}')
            if not on.ok:
                if ref is None:
                    raise Skip('fit refused')
                new2 = None
                refs = [('previous fit', ref)]
                ask = Ask(sim, kind, fit, table, str(s))
                check_ask(sim, ask, t, refs, sig, 'after a refused fit')
                t = mk()
                fit.run(t)
                continue
            ref, fit = new, nf
            sim.count('fits')
            if nf.method == 'fit_transform' and kind.name != 'cleaner':
                a = attempt(lambda: new.transform(nf.x()))
                if not outcome_same(a, on):
                    raise Violation('fit-transform-differs', sig, f'{how}: {on}; transform afterwards {a}')
        elif op == 1:                                            # failing fit
            nf = Fit(sim, kind, table, str(s))
            refs = [('previous fit', ref)]
            if sim.flip(35, 'damage'):
                bf = nf.damaged(sim)
                o = attempt(lambda: bf.run(t))
                sim.fault('damaged-data')
                what, fired = 'damaged data', True
                fresh_bad = fresh(mk, bf)
                if fresh_bad is not None:
                    refs.append(('attempted fit', fresh_bad))
            else:
                _, sites, _ = record_lines(lambda: attempt(lambda: nf.run(mk())))
                cp = choose_crash(sim, sites)
                if cp is None:
                    continue
                site, occ, nm, exc = cp
                box = {}
                _, fired = crash_at(lambda: box.setdefault('o', attempt(lambda: nf.run(t))), site, occ, exc)
                o = box['o']
                what = f"{nm} before {site[0].split('/ylearn/')[-1]}:{site[1]}"
                if fired:
                    sim.fault('line-' + nm)
                r2 = fresh(mk, nf)
                if r2 is not None:
                    refs.append(('attempted fit', r2))
            sim.note('failing fit', what, fired, o.ok)
            if o.ok and len(refs) > 1:
                refs = refs[1:]
            for j in range(sim.between(1, 2, 'asks')):
                ask = Ask(sim, kind, [nf, fit][sim.choose(2, 'rows-of')], table, f'{s}{j}')
                _, refs = check_ask(sim, ask, t, refs, sig, f'after a failed fit ({what})')
            t = mk() if sim.flip(20, 'start-over') else t
            new = mk()                                           # and a clean fit on the same object
            nf = Fit(sim, kind, table, f'{s}r')
            on, oo = attempt(lambda: nf.run(new, keep=True)), attempt(lambda: nf.run(t, keep=True))
            if not outcome_same(on, oo):
                raise Violation('refit-differs', sig, f'{nf.method} after a failed fit ({what}): {oo}; new transformer: {on}')
            if not on.ok:
                raise Skip('fit refused')
            ref, fit = new, nf
        elif op == 2:                                            # restore or copy
            how = ['pickle', 'deepcopy', 'other process'][sim.choose(3, 'how')]
            if how == 'other process' and not peers.count():
                how = 'pickle'
            ask = Ask(sim, kind, fit, table, str(s))
            sim.count('restored: ' + how)
            if how == 'other process':
                a = ask(ref)
                b = peers.call(sim.choose(peers.count(), 'peer'), 'remote', pickle.dumps(t), ask.x(), ask.y)
                if not outcome_same(a, b):
                    raise Violation('answer-differs', sig, f'restored in another process: {b}; here {a}')
            else:
                o = attempt(lambda: (pickle.dumps(t), None)[1])
                if not o.ok:
                    raise Violation('pickle-failed', sig, o)
                t = pickle.loads(pickle.dumps(t)) if how == 'pickle' else copy.deepcopy(t)
                must(sim, ask, t, ref, sig, how)
        if ref is not None and fit is not None and sim.flip(70, 'ask'):
            must(sim, Ask(sim, kind, fit, table, f'{s}e'), t, ref, sig, 'transform')
    if kind.inverse and ref is not None:
        inverse(sim, kind, fit, t, ref)


def inverse(sim, kind, fit, t, ref):
    """encoded values of the fitting rows decode to themselves, on a copy that is left unchanged"""
    x = fit.x()
    e = attempt(lambda: t.transform(x))
    if not e.ok:
        return
    z = t.transform(x)
    before = S.snap(z)
    o = attempt(lambda: t.inverse_transform(z))
    sim.note('inverse', o.ok)
    if S.snap(z) != before:
        raise Violation('input-changed', kind.name, 'inverse_transform changed its input')
    if not o.ok:
        raise Violation('inverse-failed', kind.name, f'{o} of {e}')
    if kind.name == 'onehot' and 'infrequent' in repr(t):
        return
    back = np.asarray(t.inverse_transform(z), dtype=object)
    for i in range(len(fit.df)):
        for j in range(fit.df.shape[1]):
            a, b = fit.df.iloc[i, j], back[i, j]
            na = a is None or a != a
            nb = b is None or b != b
            if na != nb or not na and not (a == b or str(a) == str(b)):
                raise Violation('inverse-differs', kind.name, f'{a!r} came back as {b!r} (column {fit.df.columns[j]})')


def threads(sim):
    kind, mk = pick(sim)
    table = Table(sim, kind.kinds)
    fit = Fit(sim, kind, table, '0')
    t, ref = fresh(mk, fit), fresh(mk, fit)
    if t is None or ref is None:
        raise Skip('fit refused')
    nt = sim.between(2, 3, 'threads')
    asks = [[Ask(sim, kind, fit, table, f'{i}{j}') for j in range(sim.between(1, 2, 'per-thread'))] for i in range(nt)]
    got = [[None] * len(a) for a in asks]
    shared = sim.flip(40, 'one-frame')
    x0 = asks[0][0].x()
    before = S.snap(x0)
    if shared:                                                    # all threads pass the very same frame
        asks = [[asks[0][0]] for _ in range(nt)]

    def worker(i):
        def go():
            for j, a in enumerate(asks[i]):
                got[i][j] = a(t, x=x0 if shared else None)
        return go
    for _, exc in sched.run_threads(sim, [worker(i) for i in range(nt)]):
        if exc is not None:
            raise exc
    if S.snap(x0) != before:
        raise Violation('input-changed', kind.name, f'concurrent transform: {S.where(before, S.snap(x0))}')
    for i in range(nt):
        for a, g in zip(asks[i], got[i]):
            r = a(ref)
            sim.note('thread', i, g.ok, fp(g.val) if g.ok else g.exc)
            if not outcome_same(r, g):
                raise Violation('answer-differs', kind.name, f'with {nt} threads: {g}; alone {r}')
            check_rows(sim, a, ref, g, kind.name, f'with {nt} threads')
    must(sim, asks[0][0], t, ref, kind.name, 'after concurrent transforms')


SCENARIOS = [('history', history, 7), ('threads', threads, 3)]
