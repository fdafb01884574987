from vc.api import *

P = 'C05'
ASSUME = ['pandas rolling medians and quantiles are assumed: named functionals of series, window, min_periods, closedness, '
          'centring and direction; the contract fixes which of them each point is compared with']


def rmed(x, w, **kw):
    return x.rolling(w, **kw).median()


def windows(x, w):
    back = rmed(x, w, min_periods=5, closed='both')
    fwd = rmed(x.loc[::-1], w, min_periods=5, closed='both')
    return back._cell, fwd._cell



@contract(P, 'two_way_window_filter', ['filtering.two_way_window_filter'], assumptions=ASSUME)
def _(u):
    x = sym_series('x')
    if fork('args', 'default', 'given') == 'default':
        w, th = Timedelta('7 Days'), SF.of(0.03)
        m = u.filtering.two_way_window_filter(x)
    else:
        w, th = Timedelta(sym_float('w'), unit='D'), sym_float('th')
        m = u.filtering.two_way_window_filter(x, roll_period=w, outlier_threshold=th)
    y = x / x.quantile(0.99)
    b, f = windows(y, w)

    def spec(t):
        v = y._cell(t)
        zero = SF.of(0)

        def dist(med):
            d = abs(v - med)
            return ite(d.nan, zero, d)
        return Or((dist(b(t)) < th).b, (dist(f(t)) < th).b)
    ensure_mask('two-way', m, x.index, spec)
    unchanged()


@contract(P, 'hampel_filter', ['filtering.hampel_filter'], assumptions=ASSUME)
def _(u):
    x = sym_series('x')
    if fork('args', 'default', 'given') == 'default':
        k, t0 = '14d', 3
        m = u.filtering.hampel_filter(x)
    else:
        k, t0 = Timedelta(sym_float('k'), unit='D'), sym_float('t0')
        m = u.filtering.hampel_filter(x, k=k, t0=t0)
    med = rmed(x, k, center=True, min_periods=1)
    d = abs(x - med)
    mad = rmed(d, k, center=True, min_periods=1)

    def spec(t):
        lim = SF.of(t0) * SF.of(1.4826) * mad._cell(t)
        return (d._cell(t) <= lim).b
    ensure_mask('hampel', m, x.index, spec)
    unchanged()


@contract(P, 'directional_tukey_filter', ['filtering.directional_tukey_filter', 'filtering._tukey_fence'], assumptions=ASSUME)
def _(u):
    x = sym_series('x')
    if fork('args', 'default', 'given') == 'default':
        w, k = Timedelta('7 Days'), SF.of(1.5)
        m = u.filtering.directional_tukey_filter(x)
    else:
        w, k = Timedelta(sym_float('w'), unit='D'), sym_float('k')
        m = u.filtering.directional_tukey_filter(x, roll_period=w, k=k)
    b, f = windows(x, w)
    offs = [x._map(lambda v: v) - Series._mk(x.index, c) for c in (b, f)]
    q = [(o.quantile(0.25), o.quantile(0.75)) for o in offs]

    def spec(t):
        r = []
        for o, (lo, hi) in zip(offs, q):
            v = o._cell(t)
            iqr = hi - lo
            r.append(And((v > lo - k * iqr).b, (v < hi + k * iqr).b))
        return Or(*r)
    ensure_mask('tukey', m, x.index, spec)
    unchanged()
