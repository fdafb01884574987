from base import *
from rdtools.degradation import degradation_ols as OLS, degradation_classical_decomposition as CD


def fit(x, y):
    """least squares of y on 1, x with the usual standard errors"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    mx, my = x.mean(), y.mean()
    sxx = ((x - mx) ** 2).sum()
    m = ((x - mx) * (y - my)).sum() / sxx
    b = my - m * mx
    ssr = ((y - b - m * x) ** 2).sum()
    s2 = ssr / (n - 2)
    return dict(slope=m, intercept=b, rmse=math.sqrt(s2), slope_stderr=math.sqrt(s2 / sxx),
                intercept_stderr=math.sqrt(s2 * (1 / n + mx * mx / sxx)))


def years(ix):
    return np.array([(t - ix[0]).total_seconds() / 86400 / 365.0 for t in ix])


def compare(res, want, what, **data):
    rd, ci, info = res
    tol = dict(rtol=1e-6, atol=1e-9)
    require(close(rd, 100 * want['slope'] / want['intercept'], **tol), what + ': rate is not 100*slope/intercept', got=rd,
            want=100 * want['slope'] / want['intercept'], **data)
    for k, v in want.items():
        require(close(info[k], v, **tol), f'{what}: {k}', got=info[k], want=v, **data)
    require(len(ci) == 2 and ci[0] <= ci[1], what + ': confidence interval', got=ci)


def series(g, ix, nan=0.0):
    n = len(ix)
    rd = g.choice(-0.01, 0.0, -0.05, 0.02)
    v = (1 + rd * years(ix)) * np.array([1 + g.dyadic(-0.1, 0.1, 256) for _ in range(n)]) * g.choice(1, 0.5, 40)
    if g.p(0.1):
        v = np.full(n, g.choice(1.0, 0.5, 0.875))
    if nan:
        v[[g.p(nan) for _ in range(n)]] = NAN
    s = pd.Series(v, ix, name=g.name())
    s.index.name = g.choice(None, 'time')
    return s


@check('C09', 60)
def ols(g):
    kind = g.choice('D', '7D', 'MS', 'irr')
    tz = g.tz()
    start = g.start(tz).normalize()
    n = g.int(8, 300)
    if kind == 'irr':
        ix = pd.DatetimeIndex(sorted(start + pd.Timedelta(hours=h) for h in g.r.sample(range(30000), n)))
    else:
        ix = pd.date_range(start, periods=n, freq=kind)
    s = series(g, ix, nan=g.choice(0, 0, 0.2))
    ok = s.notna().values
    if g.p(0.2):
        s.iloc[0] = NAN
        ok = s.notna().values
    if ok.sum() < 5:
        raise Skip()
    snap = Snapshot(series=s)
    res = must(OLS, s) if g.p(0.5) else must(OLS, s, confidence_level=g.choice(50, 95))
    snap.verify('degradation_ols')
    compare(res, fit(years(ix)[ok], s.values[ok]), 'degradation_ols', series=s)


def moving_average(ix, v):
    """mean over the year centred on each point: the half-open window (t - 182.5 d, t + 182.5 d]"""
    h = pd.Timedelta('365d') / 2
    a = ix.asi8
    w = h.value
    out = []
    for t in a:
        k = (a > t - w) & (a <= t + w)
        out.append(v[k].mean())
    return np.array(out)


@check('C09', 24)
def classical(g):
    freq = g.choice('D', '7D', 'MS', '5D', '12h', '36h')
    tz = g.choice(None, 'UTC', 'Etc/GMT+7')
    start = pd.Timestamp(g.choice('2018-01-01', '2019-05-01', '2020-02-01'), tz=tz)
    span = g.int(600, 1500)
    if freq.endswith('h'):
        span = 365 * g.choice(2, 3, 4) if freq == '12h' else 1095
    ix = pd.date_range(start, start + pd.Timedelta(days=span), freq=freq)
    s = series(g, ix)
    snap = Snapshot(series=s)
    y = years(ix)
    ma = moving_average(ix, s.values)
    full = (y >= y[0] + 0.5) & (y <= y[-1] - 0.5)
    if (np.abs(y - y[0] - 0.5) < 1e-9).any() or (np.abs(y[-1] - 0.5 - y) < 1e-9).any():
        # a point exactly half a year from an end belongs to the fit; decided only where the arithmetic is exact
        if y[-1] * 2 != int(y[-1] * 2):
            raise Skip()
    if full.sum() < 5:
        raise Skip()
    res = must(CD, s)
    snap.verify('degradation_classical_decomposition')
    compare(res, fit(y[full], ma[full]), 'classical decomposition', series=s)
    ser = res[2]['series']
    same_labels(ser.index, ix, 'moving average')
    same_values(ser.values, np.where(full, ma, NAN), 'moving average', rtol=1e-7)
    import c10
    if len(set(np.round(ma[full], 9))) == full.sum():
        w, z, edge = c10.mann_kendall(ma[full], 0.05)
        if not edge:
            require(res[2]['mk_test_trend'] == w, 'reported trend', got=res[2]['mk_test_trend'], want=w)
    bad = s.copy()
    how = g.choice('nan', 'dropped', 'irregular')
    if how == 'nan':
        bad.iloc[g.choice(0, len(s) - 1, g.int(0, len(s) - 1))] = NAN
    elif how == 'dropped':
        bad = bad.drop(bad.index[g.int(1, len(s) - 2)])
    else:
        bad.index = pd.DatetimeIndex([t + pd.Timedelta(hours=g.int(0, 3)) for t in ix])
        bad.index.freq = None
    must_raise(ValueError, CD, bad)
