from base import *
import rdtools
import rdtools.degradation as DG
import rdtools.bootstrap as BS
import rdtools.soiling as SO
import c08, c09
from scipy.stats import binom
yoy = DG.degradation_year_on_year
LEVELS = [68.2, 95.0, 50.0, 10.0, 99.0, 0.0, 80.0, 99.9, 99.99]
PROBS = [95.0, 50.0, 5.0, 75.0, 99.0]


class Record:
    """remember what a random function returned"""
    def __init__(self, name):
        self.name, self.out, self.args = name, [], []

    def __enter__(self):
        self.real = getattr(np.random, self.name)

        def f(*a, **k):
            v = self.real(*a, **k)
            self.out.append(np.array(v))
            self.args.append((a, k))
            return v
        setattr(np.random, self.name, f)
        return self

    def __exit__(self, *a):
        setattr(np.random, self.name, self.real)


def pct(v, p):
    return float(np.quantile(np.asarray(v, float), p / 100))


def nested(f, what):
    """same draws: intervals nest with the level, exceedance levels fall with the probability"""
    cs = sorted([0.0, 10.0, 50.0, 68.2, 95.0])
    got = [f(c, e) for c, e in zip(cs, sorted(PROBS))]
    for (ci, p), (ci2, p2) in zip(got, got[1:]):
        require(ci[0] <= ci[1] and ci2[0] <= ci2[1], what + ': lower bound above upper bound', got=(ci, ci2))
        require(ci2[0] <= ci[0] + 1e-12 and ci[1] <= ci2[1] + 1e-12, what + ': higher confidence gives a narrower interval',
                lower_level=ci, higher_level=ci2)
        if p is not None:
            require(p2 <= p + 1e-12, what + ': higher exceedance probability gives a higher level', got=(p, p2))


def yseries(g):
    for _ in range(50):
        s = c08.series(g)
        if c08.enough(s.index):
            try:
                ix, ren, pairs, sl = c08.model(s, True)
            except Skip:
                continue
            good = [v for v in sl.values() if v == v]
            if len(good) >= 5 and len(good) * 10000 < 6e6:
                return s, good
    raise Skip()


@check('C11', 24)
def yoy_simple(g):
    s, good = yseries(g)
    c, e = g.choice(LEVELS), g.choice(PROBS)
    kw = {}
    if g.p(0.7):
        kw['confidence_level'] = c
    else:
        c = 68.2
    if g.p(0.7):
        kw['exceedance_prob'] = e
    else:
        e = 95.0
    with Record('choice') as R:
        rd, ci, info = must(yoy, s, **kw)
    vals = info['YoY_values'].values
    require(len(ci) == 2 and ci[0] <= ci[1], 'lower bound above upper bound', got=ci)
    P = info['exceedance_level']
    for x in (ci[0], ci[1], P):
        require(min(vals) - 1e-9 <= x <= max(vals) + 1e-9, 'bound outside the range of the distribution', got=x)
    # against the exact distribution of the bootstrap median (odd number of slopes)
    n = len(vals)
    if n % 2:
        v = np.sort(vals)
        cdf = 1 - binom.cdf((n + 1) // 2 - 1, n, np.arange(1, n + 1) / n)

        def inside(x, p):
            q = p / 100
            d = 6 * math.sqrt(max(q * (1 - q), 1e-4) / 10000) + 2e-4
            lo = v[min(n - 1, int(np.searchsorted(cdf, q - d)))] if q - d > 0 else v[0]
            hi = v[min(n - 1, int(np.searchsorted(cdf, q + d)))] if q + d < 1 else v[-1]
            return lo - 1e-9 <= x <= hi + 1e-9
        for x, p in ((ci[0], 50 - c / 2), (ci[1], 50 + c / 2), (P, 100 - e)):
            require(inside(x, p), f'{x} is not the {p}th percentile of the bootstrap medians', confidence=c, exceedance=e, ci=ci, P=P)
    # against the draws themselves
    if len(R.out) == 1 and R.out[0].shape == (n, 10000):
        m = np.median(R.out[0], axis=0)
        same_values(ci, [pct(m, 50 - c / 2), pct(m, 50 + c / 2)], 'interval is not the stated percentiles', 1e-9)
        require(close(P, pct(m, 100 - e)), 'exceedance level is not the stated percentile', got=P, want=pct(m, 100 - e))
    if g.p(0.25):
        def f(c, e):
            np.random.seed(5)
            r = must(yoy, s, confidence_level=c, exceedance_prob=e)
            return r[1], r[2]['exceedance_level']
        nested(f, 'year on year')


@check('C11', 3, 20)
def yoy_block(g):
    start = pd.Timestamp('2018-01-01', tz=g.choice(None, 'UTC'))
    n = g.int(106, 125)
    s = pd.Series([(1 - 0.0002 * i) * (1 + g.dyadic(-0.1, 0.1, 256)) for i in range(n)], pd.date_range(start, periods=n, freq='7D'))
    c, e = g.choice(LEVELS), g.choice(PROBS)
    rd, ci, info = must(yoy, s, uncertainty_method='circular_block', confidence_level=c, exceedance_prob=e, block_length=g.int(4, 20))
    r = np.asarray(info['bootstrap_rates'], float)
    require(len(r) >= 100, 'number of bootstrap rates', got=len(r))
    same_values(ci, [pct(r, 50 - c / 2), pct(r, 50 + c / 2)], 'circular block interval')
    require(close(info['exceedance_level'], pct(r, 100 - e)), 'circular block exceedance level', got=info['exceedance_level'],
            want=pct(r, 100 - e))
    require(abs(np.median(r) - rd) < 6 * np.std(r) + 1e-6, 'bootstrap rates are not estimates of the reported rate', got=np.median(r), rate=rd)


def regression(g, F, s, x, y, what):
    c = g.choice(LEVELS)
    kw = dict(confidence_level=c) if g.p(0.7) else {}
    c = kw.get('confidence_level', 68.2)
    with Record('multivariate_normal') as R:
        rd, ci, info = must(F, s, **kw)
    require(len(ci) == 2 and ci[0] <= ci[1], what + ': lower bound above upper bound', got=ci)
    w = c09.fit(x, y)
    mx = float(np.mean(x))
    cov = -mx * w['slope_stderr'] ** 2
    C = [[w['intercept_stderr'] ** 2, cov], [cov, w['slope_stderr'] ** 2]]
    if len(R.out) == 1 and R.out[0].shape == (10000, 2):
        a, k = R.args[0]
        if len(a) >= 2:
            mean, C2 = np.asarray(a[0], float), np.asarray(a[1], float)
            if close(mean[0], w['intercept'], 1e-6) and close(mean[1], w['slope'], 1e-6, 1e-9):
                d = 100 * R.out[0][:, 1] / R.out[0][:, 0]
                same_values(ci, [pct(d, 50 - c / 2), pct(d, 50 + c / 2)], what + ': interval is not the stated percentiles', 1e-7, 1e-9)
            same_values(C2.ravel(), np.ravel(C), what + ': covariance of the fit', 1e-5, 1e-12)
    rng = np.random.RandomState(7)
    z = rng.multivariate_normal([w['intercept'], w['slope']], C, 200000)
    if abs(w['intercept']) < 6 * w['intercept_stderr']:
        raise Skip()
    d = np.sort(100 * z[:, 1] / z[:, 0])
    for v, p in ((ci[0], 50 - c / 2), (ci[1], 50 + c / 2)):
        q = p / 100
        t = 6 * math.sqrt(max(q * (1 - q), 1e-4) * (1 / 10000 + 1 / 200000)) + 1e-3
        lo, hi = pct(d, max(0, 100 * (q - t))), pct(d, min(100, 100 * (q + t)))
        if q - t <= 0:
            lo = d[0] - (d[-1] - d[0])
        if q + t >= 1:
            hi = d[-1] + (d[-1] - d[0])
        require(lo - 1e-9 <= v <= hi + 1e-9, f'{what}: {v} is not the {p}th percentile of the rate distribution', ci=ci, level=c,
                expected=(lo, hi))
    if g.p(0.2):
        def f(c, e):
            np.random.seed(3)
            return must(F, s, confidence_level=c)[1], None
        nested(f, what)


@check('C11', 20)
def ols(g):
    n = g.int(12, 200)
    ix = pd.date_range(g.start().normalize(), periods=n, freq=g.choice('D', '7D', 'MS'))
    s = c09.series(g, ix)
    regression(g, DG.degradation_ols, s, c09.years(ix), s.values, 'ols')


@check('C11', 6)
def classical(g):
    n = g.int(730, 900)
    ix = pd.date_range(g.start(None).normalize(), periods=n, freq='D')
    s = c09.series(g, ix)
    st, r, _ = attempt(DG.degradation_classical_decomposition, s)
    if st != 'ok':
        raise Skip()
    ma = r[2]['series']
    y = np.asarray(ma, float)
    ok = ~np.isnan(y)
    x = np.asarray(c09.years(pd.DatetimeIndex(ma.index)), float)
    x = x + (pd.DatetimeIndex(ma.index)[0] - ix[0]).total_seconds() / 86400 / 365.0
    w = c09.fit(x[ok], y[ok])
    if not close(100 * w['slope'] / w['intercept'], r[0], 1e-6, 1e-9):
        raise Skip()       # the fit itself is C09's concern
    regression(g, DG.degradation_classical_decomposition, s, x[ok], y[ok], 'classical')


@check('C11', 40)
def construct(g):
    f = private(BS, '_construct_confidence_intervals')
    n, k = g.int(3, 20), g.int(2, 40)
    df = pd.DataFrame({i: g.values(n, -5, 5, nan=0) for i in range(k)})
    e, c = g.choice(95, 50, 10, 99.5), g.choice(68.2, 95, 0, 100)
    kw = dict(exceedance_prob=e, confidence_level=c)
    if g.p(0.3):
        kw, e, c = {}, 95, 68.2
    ci, ex, m = must(f, df, lambda s: float(s.mean()), **kw)
    want = [df[i].mean() for i in range(k)]
    same_values(ci, [pct(want, 50 - c / 2), pct(want, 50 + c / 2)], 'bootstrap interval')
    require(close(ex, pct(want, 100 - e)), 'bootstrap exceedance level', got=ex, want=pct(want, 100 - e))


@check('C11', 12)
def soiling(g):
    n = g.int(250, 400)
    ix = pd.date_range('2019-01-01', periods=n, freq='D')
    per, rate = g.int(20, 45), g.choice(0.001, 0.002, 0.003)
    pm = pd.Series([1 - rate * (i % per) + g.dyadic(-1, 1, 512) * 0.002 for i in range(n)], ix)
    ins = pd.Series(g.values(n, 1000, 2000, nan=0), ix)
    c, e = g.choice(LEVELS), g.choice(PROBS)
    kw = dict(confidence_level=c, exceedance_prob=e)
    if g.p(0.25):
        kw, c, e = {}, 68.2, 95.0
    meth = g.choice('half_norm_clean', 'random_clean', 'perfect_clean')
    st, r, _ = attempt(SO.soiling_srr, pm, ins, reps=g.int(5, 25), method=meth, **kw)
    if st != 'ok':
        raise Skip()
    sr, ci, info = r
    ps = info['stochastic_soiling_profiles']
    m = [float((p * ins.reindex(p.index)).sum() / ins.reindex(p.index).sum()) for p in ps]
    same_values([sr, *ci], [pct(m, 50), pct(m, 50 - c / 2), pct(m, 50 + c / 2)], 'soiling ratio and interval', 1e-8)
    require(close(info['exceedance_level'], pct(m, 100 - e), 1e-8), 'soiling exceedance level', got=info['exceedance_level'],
            want=pct(m, 100 - e))
    # annual summary
    lvl = g.choice(LEVELS)
    a = must(SO.annual_soiling_ratios, ps, ins, confidence_level=lvl)
    for _, row in a.iterrows():
        y = int(row['year'])
        v = []
        for p in ps:
            k = p.index.year == y
            w = ins.reindex(p.index)[k]
            v.append(float((p[k] * w).sum() / w.sum()))
        same_values([row['soiling_ratio_median'], row['soiling_ratio_low'], row['soiling_ratio_high']],
                    [pct(v, 50), pct(v, 50 - lvl / 2), pct(v, 50 + lvl / 2)], f'annual soiling ratio {y}', 1e-8)
