from base import *
from rdtools import normalization
from rdtools.normalization import interpolate


def valid(s):
    """[(ns, value)] of the non-missing samples"""
    return [(int(t), float(v)) for t, v in zip(s.index.asi8, s.values) if v == v]


def median(v):
    v = sorted(v)
    n = len(v)
    return NAN if n == 0 else (v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2)


def default_gap(s):
    p = valid(s)
    return 2 * median([b[0] - a[0] for a, b in zip(p, p[1:])])


def interp_at(p, ns, maxgap):
    """contract value at time ns: p sorted valid samples"""
    lo = None
    for i, (t, v) in enumerate(p):
        if t == ns:
            return v
        if t < ns:
            lo = i
        else:
            break
    if lo is None or lo + 1 >= len(p):
        return NAN
    (t0, v0), (t1, v1) = p[lo], p[lo + 1]
    if t1 - t0 > maxgap:
        return NAN
    return v0 + (v1 - v0) * ((ns - t0) / (t1 - t0))


def expected(s, target, maxgap):
    p = valid(s)
    g = default_gap(s) if maxgap is None else maxgap.total_seconds() * 1e9
    return [interp_at(p, int(t), g) for t in target.asi8]


def gen_series(g, n, tz, nan=None):
    ix = g.times(n, steps=('1min', '15min', '1h', '1D'), tz=tz)
    return pd.Series(g.values(n, -50, 1000, nan=g.choice(0, 0.2, 0.4) if nan is None else nan), ix, name=g.name())


def gen_target(g, s, tz):
    """target index in tz hitting samples, gaps, outside, boundaries"""
    base = list(s.index.asi8)
    out = set()
    lo, hi = base[0], base[-1]
    span = max(hi - lo, 60 * 10**9)
    for _ in range(g.int(0, 18)):
        k = g.int(0, 5)
        if k == 0:
            out.add(g.choice(base))
        elif k == 1:
            i = g.int(0, len(base) - 1)
            j = min(i + 1, len(base) - 1)
            out.add((base[i] + base[j]) // 2)
        elif k == 2:
            out.add(lo - g.int(1, 5000) * 10**9)
        elif k == 3:
            out.add(hi + g.int(1, 5000) * 10**9)
        else:
            out.add(lo + (span * g.int(0, 1000)) // 1000)
    out = [t - t % 10**9 if t not in base else t for t in out]
    out = sorted(set(out))
    if g.p(0.2):
        g.r.shuffle(out)
    return pd.DatetimeIndex(np.array(out, dtype='int64'), tz='UTC').tz_convert(tz) if tz is not None else \
        pd.DatetimeIndex(np.array(out, dtype='datetime64[ns]'))


def gen_gap(g, s):
    p = valid(s)
    if len(p) < 2:
        return pd.Timedelta('1h')
    gaps = sorted({b[0] - a[0] for a, b in zip(p, p[1:])})
    x = g.choice(gaps)
    return pd.Timedelta(int(g.choice(x, x, x - 10**9, x + 10**9, x // 2)), 'ns').floor('s')


def tol(s):
    v = [abs(x) for x in np.asarray(s, dtype=float).ravel() if x == x]
    return 1e-6 * (max(v) if v else 1)


@check('C01', 250)
def series(g):
    tz = g.tz()
    s = gen_series(g, g.int(2, 14), tz)
    if len(valid(s)) < 2:
        raise Skip
    tz2 = None if tz is None else g.choice('UTC', 'Etc/GMT+7', 'Asia/Kolkata', tz)
    tgt = gen_target(g, s, tz2)
    mx = None if g.p(0.45) else gen_gap(g, s)
    snap = Snapshot(s=s, tgt=tgt)
    kw = {} if mx is None and g.p(0.5) else dict(max_timedelta=mx)
    out = must(interpolate, s, tgt, **kw) if g.p(0.7) else must(interpolate, s, tgt, mx)
    require(isinstance(out, pd.Series), 'interpolate(series) is not a series')
    same_labels(out.index, tgt, 'interpolate', series=s)
    require(out.name == s.name or (out.name is None and s.name is None), 'interpolate: name', got=out.name, want=s.name)
    same_values(out.values, expected(s, tgt, mx), 'interpolate', rtol=1e-6, atol=tol(s), series=s, target=tgt, max_gap=mx)
    snap.verify('interpolate')


@check('C01', 80)
def frame(g):
    tz = g.tz()
    n = g.int(3, 12)
    a = gen_series(g, n, tz)
    cols = g.choice([['a', 'b'], ['data', 'timestamp'], ['gapsize_ns'], [0, 1, 2]])
    df = pd.DataFrame({c: g.values(n, -50, 1000, nan=g.choice(0, 0.2, 0.4)) for c in cols}, index=a.index)
    if any(len(valid(df[c])) < 2 for c in cols):
        raise Skip
    tgt = gen_target(g, a, tz)
    mx = None if g.p(0.45) else gen_gap(g, a)
    snap = Snapshot(df=df, tgt=tgt)
    out = must(interpolate, df, tgt, mx)
    require(isinstance(out, pd.DataFrame), 'interpolate(frame) is not a frame')
    require(list(out.columns) == list(cols), 'interpolate(frame): columns', got=list(out.columns), want=cols)
    same_labels(out.index, tgt, 'interpolate(frame)')
    for c in cols:
        same_values(out[c].values, expected(df[c], tgt, mx), f'interpolate(frame) column {c!r}', rtol=1e-6, atol=tol(df), frame=df,
                    target=tgt, max_gap=mx)
    snap.verify('interpolate')


@check('C01', 25)
def dense(g):
    """hundreds of target times inside one permitted gap, or far outside the data"""
    tz = g.tz()
    s = gen_series(g, g.int(2, 6), tz, nan=g.choice(0, 0.2))
    p = valid(s)
    if len(p) < 2:
        raise Skip
    i = g.int(0, len(p) - 2)
    a, b = p[i][0], p[i + 1][0]
    n = g.choice(50, 120, 400, 1100)
    inner = {a + (b - a) * k // n for k in range(g.int(0, 1), n)}
    if g.p(0.3):
        inner |= {p[-1][0] + k * 10**9 for k in range(1, 300)}
    if g.p(0.3):
        inner |= {p[0][0] - k * 10**9 for k in range(1, 300)}
    tgt = pd.DatetimeIndex(np.array(sorted(inner), dtype='datetime64[ns]'))
    if tz is not None:
        tgt = tgt.tz_localize('UTC').tz_convert(tz)
    mx = g.choice(pd.Timedelta(b - a, 'ns'), pd.Timedelta('1000D'), None, pd.Timedelta(b - a - 10**9, 'ns'))
    want = expected(s, tgt, mx)
    if g.p(0.3):
        out = must(interpolate, s.to_frame('x'), tgt, mx)['x']
    else:
        out = must(interpolate, s, tgt, mx)
    same_labels(out.index, tgt, 'interpolate onto a dense index')
    same_values(out.values, want, 'interpolate onto a dense index', rtol=1e-6, atol=tol(s), series=s, target=tgt, max_gap=mx)


@check('C01', 80)
def frequency(g):
    tz = g.tz()
    s = gen_series(g, g.int(3, 12), tz)
    if len(valid(s)) < 2:
        raise Skip
    step = int(median([b - a for a, b in zip(s.index.asi8, s.index.asi8[1:])]))
    f = pd.Timedelta(g.choice(step, step // 2, step * 2, step // 3), 'ns').ceil('s')
    fr = g.choice(pd.tseries.frequencies.to_offset(f), f'{int(f.total_seconds())}s')
    mx = None if g.p(0.5) else gen_gap(g, s)
    out = must(interpolate, s, fr, mx)
    tgt = pd.date_range(s.index.min(), s.index.max(), freq=fr)
    same_labels(out.index, tgt, 'interpolate onto a frequency')
    same_values(out.values, expected(s, tgt, mx), 'interpolate onto a frequency', rtol=1e-6, atol=tol(s), series=s, freq=fr, max_gap=mx)


@check('C01', 30)
def timezone_mismatch(g):
    tz = g.choice('UTC', 'America/Denver')
    s = gen_series(g, 5, tz, nan=0)
    n = s.tz_localize(None)
    tgt = s.index
    obj = [(s, n.index), (n, tgt)]
    for o, t in obj:
        if g.p(0.5):
            o = o.to_frame('a')
        must_raise(ValueError, interpolate, o, t)
        must_raise(ValueError, interpolate, o, t, pd.Timedelta('1h'))


@check('C01', 30)
def excluded_fraction_warning(g):
    """more than the threshold fraction of samples follow an over-long gap <=> a warning"""
    s = gen_series(g, g.int(4, 14), g.tz(), nan=g.choice(0, 0.2))
    p = valid(s)
    if len(p) < 2:
        raise Skip
    mx = gen_gap(g, s)
    th = g.choice(0.1, 0.25, 0.5, 0.0)
    bad = sum(b[0] - a[0] > mx.total_seconds() * 1e9 for a, b in zip(p, p[1:])) / len(p)
    st, v, w = attempt(interpolate, s, s.index, mx, th)
    require(st == 'ok', f'raised {v}')
    got = any(issubclass(x.category, UserWarning) for x in w)
    require(got == (bad > th), 'excluded-data warning', got=got, fraction=bad, threshold=th)
