"""C06 clipping filters: the parts that classify (overall threshold) and reject inputs; the rest by executable contracts"""
from vc.api import *

P = 'C06'


@contract(P, 'overall clipping threshold', ['filtering._apply_overall_clipping_threshold'],
          assumptions=['robust_quantile through its contract (C25)'])
def _(u):
    ix = sym_index('ix', nonempty=True)
    power = sym_series('power', ix)
    mask = sym_series('mask', ix, kind='b')
    clipped = sym_series('clipped')
    out = u.filtering._apply_overall_clipping_threshold(power, mask, clipped)
    q = u.utilities.robust_quantile(power, 0.99)
    qc = u.utilities.robust_quantile(clipped, 0.99)
    pd_ = abs((q - qc) / ((q + qc) / 2))
    pct = dom_card(clipped._dom) / dom_card(ix._dom) * 100
    on = And((pd_ < 0.005).b, (SF.of(pct) > 4).b)
    ensure_mask('overall', out, ix, lambda t: Or(mask._cell(t).b, And(on, (power._cell(t) >= q).b)))
    unchanged()


@contract(P, 'inputs rejected', ['filtering._format_clipping_time_series'])
def _(u):
    x = sym_series('power')
    ok = fork('mounting', 'fixed', 'single_axis_tracking', 'other', None, 'Fixed')
    good = ok in ('fixed', 'single_axis_tracking')
    bad, r = raises(Exception, lambda: u.filtering._format_clipping_time_series(x, ok))
    n = dom_card(x._dom)
    if good:
        ensure('more than 10 readings accepted', Iff(bad, Not((SF.of(n) > 10).b)))
    else:
        ensure('unknown mounting raises ValueError', bad and isinstance(r, ValueError))
    if not bad:
        s, nm = r
        t = label()
        same_index(s, x.index, t, 'index')
        ensure('values', Implies(x._dom.mem(t), same(s._cell(t), x._cell(t))))
        ensure('named value', s.name == 'value')
    unchanged()


def token(x):
    """str() of a symbolic sampling interval"""
    return x if isinstance(x, str) else Tok(x)


class Tok:
    def __init__(self, v, tail=''):
        self.v, self.tail = v, tail

    def __add__(self, o):
        return Tok(self.v, self.tail + o)


def interp(s, target, *a, **k):
    if a or k or not isinstance(target, Tok):
        raise Unsupported('interpolate call')
    x = s['value'] if isinstance(s, DataFrame) else s
    r = opaque_series('interpolate', [SF.of(target.v), target.tail], [x], name=x.name)
    return DataFrame._mk(r.index, {'value': r._cell}) if isinstance(s, DataFrame) else r


def rr(power, n):
    ctx().keep.append(('rr', n))
    return opaque_series('rolling range', [n], [power], index=power.index)


def overall(power, mask, clipped):
    r = Series._mk(mask.index, cell_fun('overall', 'b'), 'o')
    ctx().keep.append(('overall', power, mask, clipped, r))
    return r


def D(s):
    return s.resample('D')


def quantile(x, q=None):
    return opaque('robust quantile', inputs=[(x._dom.axis, x._dom.mem, x._cell)], args=[SF.of(q)], mk=lambda: SF.fresh('rq')).outs[0]


OV = {'filtering._check_data_sampling_frequency': lambda *a: None, 'normalization.interpolate': interp,
      'filtering._calculate_max_rolling_range': rr, 'filtering._apply_overall_clipping_threshold': overall}
ASM = ['time stamps are distinct (repeated ones by executable contracts)', 'pandas resample, rolling, mode as library contracts',
       'interpolate, rolling range and overall threshold through their own contracts', 'str() of the sampling interval is injective']


def rejected(x, e):
    if type(e) is not Exception:
        raise Unsupported(f'{type(e).__name__}: {e}')
    ensure('only short records rejected', Not((SF.of(dom_card(x._dom)) > 10).b))


def bands(u, high, choices):
    x = sym_series('power')
    mt, roll = fork('mounting and roll', *choices)
    cut = sym_float('cutoff')
    m = (x.index.to_series().diff() / Timedelta('60s')).mode()[0]
    assume((SF.of(m) < 10).b if high else (SF.of(m) >= 10).b)
    bad, r = raises(Exception, lambda: u.filtering.logic_clip_filter(x, mounting_type=mt, rolling_range_max_cutoff=cut, roll_periods=roll))
    if bad:
        rejected(x, r)
        return
    calls = [k for k in ctx().keep if isinstance(k, tuple) and k and k[0] == 'overall']
    if len(calls) != 1:
        raise Unsupported('overall threshold not applied exactly once')
    _, power, mask, clipped, final = calls[0]
    ix = x.index
    frozen = (D(x).std() / D(x).mean()).reindex(ix, method='ffill') < 0.1
    clean = x.where(~frozen)
    if high:
        G, step = clean.resample('15min').median(), 15
    else:
        G, step = interp(clean, Tok(m, 'min')), m
    if roll is None:
        short = ctx().decide((SF.of(step) < 30).b)
        roll = 5 if mt == 'single_axis_tracking' and short else 3
    asked = [k[1] for k in ctx().keep if isinstance(k, tuple) and k and k[0] == 'rr']
    if not asked or not all(isinstance(k, int) for k in asked):
        raise Unsupported('rolling range calls')
    ensure('number of rolling periods', all(k == roll for k in asked))
    lim = (0.1 * D(G).max()).reindex(G.index, method='ffill')
    G = G.where(~(G < lim))
    near = (rr(G, roll) < cut).rolling(roll).sum() >= 1
    at = near.reindex(ix, method='ffill')
    c = x.where(at)
    if high:
        hi, lo = D(c).agg(quantile, q=0.99), D(c).agg(quantile, q=0.075)
    else:
        hi, lo = D(c).max(), D(c).min()
    hi, lo = hi.reindex(ix, method='ffill'), lo.reindex(ix, method='ffill')
    t = label()
    h, l, v = hi._cell(t), lo._cell(t), x._cell(t)
    d = (h - l) / h
    band = lambda b: And((v <= b * 1.0025).b, (v >= b * 0.9975).b)      # noqa: E731
    want = Or(And((d <= 0.025).b, (l <= v).b, (v <= h).b), And((d > 0.025).b, Or(band(h), band(l))))
    same_index(mask, ix, t, 'band:index')
    ensure('band:points', Implies(ix._dom.mem(t), Iff(mask._cell(t).b, want)))
    ensure('clipped points handed over', And(Iff(clipped._dom.mem(t), And(ix._dom.mem(t), want)),
                                            Implies(clipped._dom.mem(t), same(clipped._cell(t), v))))
    same_index(power, ix, t, 'frozen days:index')
    ensure('frozen days missing', Implies(ix._dom.mem(t), same(power._cell(t), clean._cell(t))))
    ensure_mask('result', r, ix, lambda t: Not(final._cell(t).b))
    unchanged()


for _n, _c in (('fixed', ('fixed', None)), ('tracking', ('single_axis_tracking', None)), ('given periods', ('fixed', 4))):
    @contract(P, f'logic filter: daily bands ({_n})', ['filtering.logic_clip_filter'], overrides=OV, builtin={'filtering.str': token}, assumptions=ASM)
    def _(u, _c=_c):
        bands(u, False, [_c])


@contract(P, 'logic filter: daily bands (under 10 minutes)', ['filtering.logic_clip_filter'],
          overrides={**OV, 'utilities.robust_quantile': quantile}, builtin={'filtering.str': token},
          assumptions=ASM + ['robust_quantile through its contract (C25)'])
def _(u):
    bands(u, True, [('fixed', 4)])


@contract(P, 'logic filter: daily bands (under 10 minutes, tracking)', ['filtering.logic_clip_filter'],
          overrides={**OV, 'utilities.robust_quantile': quantile}, builtin={'filtering.str': token},
          assumptions=ASM + ['robust_quantile through its contract (C25)'])
def _(u):
    bands(u, True, [('single_axis_tracking', None)])


@contract(P, 'rolling range', ['filtering._calculate_max_rolling_range'], assumptions=['pandas rolling max and min as library contracts'])
def _(u):
    x = sym_series('power', sym_index('ix', nonempty=True))
    n = fork('periods', 3, 5, 4)
    out = u.filtering._calculate_max_rolling_range(x, n)
    r = x.iloc[::-1].rolling(n)
    hi, lo = r.max(), r.min()
    t = label()
    same_index(out, x.index, t, 'index')
    h, l = hi._cell(t), lo._cell(t)
    ensure('relative range of the window that starts here', Implies(x._dom.mem(t), same(out._cell(t), (h - l) / ((h + l) / 2) * 100)))
    unchanged()


# ---- machine-learning filter -------------------------------------------------------------------------------------------------
FEATURES = ['rolling_average', 'first_order_derivative_backward', 'first_order_derivative_forward',
            'first_order_derivative_backward_rolling_avg', 'first_order_derivative_forward_rolling_avg', 'deriv_max', 'daily_max',
            'percent_daily_max', 'deriv_backward_rolling_stdev', 'deriv_backward_rolling_mean', 'deriv_backward_rolling_median',
            'deriv_backward_rolling_max', 'deriv_backward_rolling_min']


def feats(df, freq):
    """any values, except that the scaled value of a missing reading is missing"""
    x = df['value']
    n = sum(isinstance(k, str) and k == 'feats' for k in ctx().keep)
    ctx().keep.append('feats')
    f = cell_fun(f'scaled{n}', 'f')
    df['scaled_value'] = Series._mk(x.index, memo_cell(lambda t: ite(x._cell(t).nan, SF.of(float('nan')), f(t))))
    for k in FEATURES:
        df[k] = Series._mk(x.index, cell_fun(f'{k}{n}', 'f'))
    return df


class Model:
    def predict(self, df):
        return PArr(Series._mk(df.index, cell_fun('model', 'b')))


class PArr:
    def __init__(self, s):
        self.s = s

    def astype(self, t):
        return self.s


@contract(P, 'xgboost filter: mask on the input index', ['filtering.xgboost_clip_filter'],
          overrides={'filtering._check_data_sampling_frequency': lambda *a: None, 'normalization.interpolate': interp,
                     'filtering._load_xgboost_clipping_model': lambda: Model(), 'filtering._calculate_xgboost_model_features': feats},
          builtin={'filtering.str': token, 'filtering.int': lambda x: x}, assumptions=ASM)
def _(u):
    x = sym_series('power')
    mt = fork('mounting', 'fixed', 'single_axis_tracking')
    bad, r = raises(Exception, lambda: u.filtering.xgboost_clip_filter(x, mounting_type=mt))
    if bad:
        rejected(x, r)
        return
    t = label()
    same_index(r, x.index, t, 'index')
    ensure('a missing reading is never clipped', Implies(And(x._dom.mem(t), x._cell(t).nan), r._cell(t).b))
    unchanged()
