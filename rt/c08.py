from base import *
import rdtools.degradation as DG
from rdtools.degradation import degradation_year_on_year as yoy
D1 = pd.Timedelta('1D')


def robust_median(vals):
    v = [0.0 if x != x else x for x in vals]
    cut = float(np.quantile(v, 0.99)) / 1000
    if any(abs(x - cut) < 1e-12 and x != 0 for x in v):
        raise Skip()
    k = sorted(x for x in vals if x == x and x > cut)
    if not k:
        return NAN
    n = len(k)
    return k[n // 2] if n % 2 else (k[n // 2 - 1] + k[n // 2]) / 2


def enough(ix):
    f = pd.infer_freq(ix) if len(ix) >= 3 else None
    step = pd.tseries.frequencies.to_offset(f) if f else pd.Series(ix).diff().median()
    return not ix[-1] < ix[0] + pd.DateOffset(years=2) - step


def model(s, recenter):
    s = s.sort_index()
    ix = s.index
    if recenter:
        end = ix[0] + 364 * D1
        ren = robust_median([v for t, v in zip(ix, s.values) if t <= end])
    else:
        ren = 1.0
    e = s.values / ren
    shifted = [t + pd.DateOffset(years=1) for t in ix]
    pairs = {}
    j = -1
    for i, t in enumerate(ix):
        while j + 1 < len(ix) and shifted[j + 1] <= t:
            j += 1
        if j >= 0 and t - shifted[j] <= 8 * D1:
            pairs[i] = j
    slopes = {}
    for i, j in pairs.items():
        yr = (ix[i] - ix[j]) / pd.Timedelta('365d')
        slopes[i] = 100.0 * (e[i] - e[j]) / yr
    return ix, ren, pairs, slopes


def series(g):
    kind = g.choice('daily', 'daily', 'weekly', 'monthly', 'irregular', 'days10')
    tz = g.choice(None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata')
    start = pd.Timestamp(g.choice('2018-01-01', '2019-05-17', '2020-02-25', '2016-02-28', '2015-12-31'), tz=tz)
    days = g.int(700, 1500)
    if kind == 'monthly':
        ix = pd.date_range(start, start + days * D1, freq='MS')
    elif kind == 'irregular':
        n = g.int(120, 400)
        ix = pd.DatetimeIndex(sorted(start + pd.Timedelta(days=d) for d in g.r.sample(range(days), n)))
    else:
        ix = pd.date_range(start, start + days * D1, freq=dict(daily='D', weekly='7D', days10='10D')[kind])
    n = len(ix)
    rd = g.choice(-0.01, 0.0, -0.05, 0.02)
    yrs = np.asarray((ix - ix[0]) / pd.Timedelta('365d'), dtype=float)
    v = (1 + rd * yrs) * np.array([1 + g.dyadic(-0.1, 0.1, 256) for _ in range(n)])
    if g.p(0.3):
        v = v * g.choice(0.01, 37.5, 1e4)
    if g.p(0.3):
        v[[g.p(0.1) for _ in range(n)]] = NAN
    if g.p(0.2):
        v[[g.p(0.05) for _ in range(n)]] = 0.0
    s = pd.Series(v, ix, name=g.name())
    s.index.name = g.choice(None, 'time')
    if g.p(0.25) and n > 30:
        keep = np.array([not g.p(0.1) for _ in range(n)])
        s = s[keep]
    return s


@check('C08', 60)
def slopes(g):
    s = series(g)
    ren = g.p(0.6)
    if not enough(s.index):
        must_raise(ValueError, yoy, s, recenter=ren, uncertainty_method='none')
        return
    ix, factor, pairs, sl = model(s, ren)
    good = {i: v for i, v in sl.items() if v == v}
    call = s
    if g.p(0.4):
        perm = list(range(len(s)))
        g.r.shuffle(perm)
        call = s.iloc[perm]
    snap = Snapshot(series=call)
    if not good:
        must_raise(ValueError, yoy, call, recenter=ren, uncertainty_method='none')
        return
    kw = {} if ren and g.p(0.5) else dict(recenter=ren)
    if g.p(0.3):
        rd = must(yoy, call, uncertainty_method=g.choice('none', None), **kw)
        snap.verify('degradation_year_on_year')
        info = None
    else:
        np.random.seed(g.int(0, 1000))
        rd, ci, info = must(yoy, call, **kw)
        snap.verify('degradation_year_on_year')
    want = float(np.median(list(good.values())))
    require(close(rd, want, 1e-7, 1e-9), 'rate is not the median of the one-year-apart slopes', got=rd, want=want, n=len(good),
            series=s)
    if info is None:
        return
    require(close(info['renormalizing_factor'], factor), 'renormalizing factor', got=info['renormalizing_factor'], want=factor)
    v = info['YoY_values']
    lab = pd.DatetimeIndex([ix[i] for i in sorted(good)])
    same_labels(v.index, lab, 'YoY_values')
    same_values(v.values, [good[i] for i in sorted(good)], 'YoY_values', rtol=1e-7, atol=1e-9)
    use = info['usage_of_points']
    same_labels(use.index, ix, 'usage_of_points')
    for k in range(len(ix)):
        lefts = [i for i, j in pairs.items() if j == k]
        if len(lefts) > 1 and any(i not in good for i in lefts):
            continue
        w = (1 if k in good else 0) + (1 if any(i in good for i in lefts) else 0)
        require(float(use.iloc[k]) == w, f'usage of point {ix[k]}', got=use.iloc[k], want=w)


@check('C08', 25)
def invariances(g):
    s = series(g)
    if not enough(s.index):
        raise Skip()
    st, a, _ = attempt(yoy, s, uncertainty_method='none')
    if st == 'exc':
        raise Skip()
    b = must(yoy, s.iloc[::-1], uncertainty_method='none')
    require(close(a, b, 1e-9, 1e-9), 'reversing the input changes the rate', a=a, b=b)
    c = must(yoy, s * 4.0, uncertainty_method='none')
    require(close(a, c, 1e-7, 1e-9), 'rescaling the input changes the rate', a=a, c=c)


@check('C08', 10)
def short(g):
    f = g.choice('D', '7D', 'MS')
    start = pd.Timestamp(g.choice('2018-01-01', '2019-05-01', '2020-03-01'))
    days = g.int(600, 760)
    ix = pd.date_range(start, start + days * D1, freq=f)
    s = pd.Series(1.0 + 0.001 * np.arange(len(ix)), ix)
    if enough(ix):
        must(yoy, s, uncertainty_method='none')
    else:
        must_raise(ValueError, yoy, s, uncertainty_method='none')
        must_raise(ValueError, yoy, s)


@check('C08', 3)
def block(g):
    """circular-block uncertainty: same central estimate; requirements on the input"""
    ix = pd.date_range('2018-01-01', periods=g.choice(110, 120), freq='7D')
    v = (1 - 0.01 * np.arange(len(ix)) / 52) * np.array([1 + g.dyadic(-0.05, 0.05, 256) for _ in ix])
    s = pd.Series(v, ix)
    base = must(yoy, s, uncertainty_method='none')
    np.random.seed(1)
    rd, ci, info = must(yoy, s, uncertainty_method='circular_block', block_length=g.choice(5, 30))
    require(close(rd, base), 'circular_block changes the rate', got=rd, want=base)
    must_raise(ValueError, yoy, s, uncertainty_method='circular_block', block_length=len(ix) // 3 + 1)
    must_raise(ValueError, yoy, s.drop(s.index[[5, 9]]), uncertainty_method='circular_block', block_length=5)
