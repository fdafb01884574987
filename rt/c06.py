from base import *
from rdtools import filtering as F, normalization as N, utilities as U


def signal(g):
    m = g.choice(1, 5, 10, 15, 30, 60)
    days = g.int(2, 3) if m == 1 else g.int(2, 6)
    tz = g.choice('Etc/GMT+7', 'America/Denver', None, 'UTC')
    start = pd.Timestamp(g.choice('2021-03-12', '2020-06-01', '2021-11-05'), tz=tz) + pd.Timedelta(minutes=g.choice(0, 0, m, 360))
    n = days * 24 * 60 // m
    ix = pd.date_range(start, periods=n, freq=f'{m}min')
    h = np.asarray(ix.hour + ix.minute / 60, float)
    base = np.clip(np.sin((h - 5) / 14 * np.pi), 0, None)
    short = g.p(0.25)          # nothing but short plateaus
    cap = 2.0 if short else g.choice(0.6, 0.75, 0.9, 2.0, 0.985, 0.99, 0.995)
    amp = g.choice(1.0, 5.0, 800.0)
    v = np.empty(n)
    date = np.array([t.toordinal() for t in ix])
    for d in sorted(set(date)):
        k = date == d
        f = g.choice(1.0, 1.0, 0.9, 0.7)
        c = g.choice(cap, cap, cap * 0.9)
        noise = g.choice(0.0, 0.0, 0.0005, 0.0009, 0.0011, 0.02)
        c = np.full(k.sum(), c)
        if g.p(0.3):
            # a second, slightly different level from some hour on
            c[h[k] >= g.choice(11, 12.5, 13)] *= g.choice(0.98, 0.976, 0.974, 0.972, 0.95, 1.027)
        x = np.minimum(base[k] * f, c)
        if g.p(0.9 if short else 0.3):
            # a short plateau on the way up or down
            j = g.choice(*[i for i, y in enumerate(h[k]) if 6.5 <= y <= 16] or [0])
            x[j:j + g.choice(2, 3, 4, 5, 6)] = x[j]
        if g.p(0.3):
            # constant low power early in the day
            x[(h[k] < 8) & (h[k] >= 5)] = x.max() * g.choice(0.05, 0.095, 0.105, 0.12)
        x = x * (1 + noise * g.np.uniform(-1, 1, k.sum()))
        if g.p(0.1):
            x[:] = 0.5          # frozen
        v[k] = x
    v = np.round(v * amp * 4096) / 4096
    for _ in range(g.choice(0, 0, 2, 5)):
        a = g.int(0, n - 1)
        v[a:a + g.choice(1, 2, 6)] = NAN
    s = pd.Series(v, ix, name=g.name())
    if g.p(0.3):
        s.index.name = g.choice('time', 'datetime', 'ts')
    if g.p(0.3):
        s = s[[not g.p(0.02) for _ in range(n)]]
    if g.p(0.15) and m >= 5 and len(s) > 40:
        # the clock of the logger jumps by part of an interval
        j = g.int(10, len(s) - 10)
        nm, name = s.index.name, s.name
        s = pd.Series(s.values, s.index[:j].append(s.index[j:] + pd.Timedelta(minutes=m) * g.choice(0.2, 0.6)), name=name)
        s.index.name = nm
    return s, m


def days(ix):
    d = {}
    for i, t in enumerate(ix):
        d.setdefault((t.year, t.month, t.day), []).append(i)
    return list(d.values())


def mode_minutes(ix):
    c = {}
    for a, b in zip(ix, ix[1:]):
        x = (b - a) / pd.Timedelta('60s')
        c[x] = c.get(x, 0) + 1
    top = max(c.values())
    return min(k for k, v in c.items() if v == top)


def last_at_or_before(grid, ix):
    return np.searchsorted(grid.asi8, ix.asi8, side='right') - 1


def std(v):
    v = v[~np.isnan(v)]
    return float(np.std(v, ddof=1)) if len(v) > 1 else NAN


def rolling_range(v, w):
    out = np.full(len(v), NAN)
    for i in range(len(v) - w + 1):
        x = v[i:i + w]
        if not np.isnan(x).any():
            a, b = x.max(), x.min()
            with np.errstate(all='ignore'):
                out[i] = (a - b) / ((a + b) / 2) * 100
    return out


def logic(s, mounting='fixed', cutoff=0.2, roll=None):
    """clipped points, stated independently of the code"""
    v, ix = s.values.astype(float), s.index
    m = mode_minutes(ix)
    orig = m
    clean = v.copy()
    for k in days(ix):
        x = v[k]
        mu = np.nanmean(x) if (~np.isnan(x)).any() else NAN
        r = std(x) / mu if mu != 0 else NAN
        if abs(r - 0.1) < 1e-9:
            raise Skip()
        if r < 0.1:
            clean[k] = NAN
    S = pd.Series(clean, ix)
    if m >= 10:
        G = N.interpolate(S, f'{m}min')
    else:
        G = S.resample('15min').median()
        m = 15
    if roll is None:
        roll = 5 if mounting == 'single_axis_tracking' and m < 30 else 3
    gv = G.values.astype(float).copy()
    for k in days(G.index):
        x = gv[k]
        if (~np.isnan(x)).any():
            lim = 0.1 * np.nanmax(x)
            x = np.where(x < lim, NAN, x)
            gv[k] = x
    with np.errstate(all='ignore'):
        rr = rolling_range(gv, roll)
        hit = rr < cutoff
        if (np.abs(rr - cutoff) < 1e-9).any():
            raise Skip()
    near = np.array([i >= roll - 1 and hit[max(0, i - roll + 1):i + 1].any() for i in range(len(gv))])
    at = near[last_at_or_before(G.index, ix)]
    clip = np.zeros(len(v), bool)
    for k in days(ix):
        p = v[k]
        c = np.where(at[k], p, NAN)
        if orig < 10:
            cs = pd.Series(c, ix[k])
            hi, lo = U.robust_quantile(cs, 0.99), U.robust_quantile(cs, 0.075)
        elif (~np.isnan(c)).any():
            hi, lo = np.nanmax(c), np.nanmin(c)
        else:
            hi = lo = NAN
        if math.isnan(hi) or math.isnan(lo):
            continue
        with np.errstate(all='ignore'):
            diff = np.float64(hi - lo) / np.float64(hi)
        if abs(diff - 0.025) < 1e-9:
            raise Skip()
        if diff <= 0.025:
            clip[k] = (lo <= p) & (p <= hi)
        elif diff > 0.025:
            clip[k] = ((p <= hi * 1.0025) & (p >= hi * 0.9975)) | ((p <= lo * 1.0025) & (p >= lo * 0.9975))
    q = U.robust_quantile(S, 0.99)
    qc = U.robust_quantile(pd.Series(v[clip], ix[clip]), 0.99) if clip.any() else NAN
    pd_ = abs((q - qc) / ((q + qc) / 2))
    pct = clip.sum() / len(v) * 100
    if abs(pd_ - 0.005) < 1e-9 or abs(pct - 4) < 1e-9:
        raise Skip()
    if pd_ < 0.005 and pct > 4:
        with np.errstate(all='ignore'):
            clip |= clean >= q
    return clip


@check('C06', 40)
def logic_filter(g):
    s, m = signal(g)
    if len(s) <= 10:
        raise Skip()
    mt = g.choice('fixed', 'single_axis_tracking')
    cut = g.choice(0.2, 0.2, 0.4, 0.05)
    roll = g.choice(None, None, 3, 4, 2)
    kw = {}
    if mt != 'fixed' or g.p(0.5):
        kw['mounting_type'] = mt
    if cut != 0.2 or g.p(0.5):
        kw['rolling_range_max_cutoff'] = cut
    if roll is not None:
        kw['roll_periods'] = roll
    snap = Snapshot(power=s)
    if g.p(0.5):
        mask = must(F.logic_clip_filter, s, **kw)
    else:
        mask = must(F.clip_filter, s, **kw) if g.p(0.5) else must(F.clip_filter, s, model='logic', **kw)
    snap.verify('logic_clip_filter')
    want = logic(s, mt, cut, roll)
    mask_is(mask, s.index, [not bool(x) for x in want], 'logic clipping filter', minutes=m, options=kw)
    require(bool(mask[s.isna()].all()), 'a NaN reading is marked as clipped')
    k = 2.0 ** g.int(-8, 8)
    m2 = must(F.logic_clip_filter, s * k, **kw)
    require(bool((m2.values == mask.values).all()), f'scaling the power by {k} changes the mask', n=int((m2.values != mask.values).sum()))


def features(v, ix, f):
    mn, mx = np.nanmin(v), np.nanmax(v)
    s = (v - mn) / (mx - mn)
    w = 5 if f < 10 else 3 if f < 60 else 2
    P = pd.Series(s)

    def centred(x, how):
        out = np.full(len(x), NAN)
        lo = w // 2 if w % 2 else w // 2
        for i in range(len(x)):
            a = i - lo
            b = a + w
            if a >= 0 and b <= len(x) and not np.isnan(x[a:b]).any():
                out[i] = how(x[a:b])
        return out
    avg = centred(s, np.mean)
    d = lambda x: np.concatenate([[NAN], np.diff(x)])          # noqa

    def dforward(x):
        y = np.concatenate([x[1:], [NAN]])
        return np.concatenate([[NAN], np.diff(y)])
    back = d(s)
    dm = np.full(len(s), NAN)
    for k in days(ix):
        if (~np.isnan(s[k])).any():
            dm[k] = np.nanmax(s[k])
    return dict(first_order_derivative_backward=back, first_order_derivative_forward=dforward(s),
                first_order_derivative_backward_rolling_avg=d(avg), first_order_derivative_forward_rolling_avg=dforward(avg),
                scaled_value=s, rolling_average=avg, daily_max=dm, percent_daily_max=s / (dm + 0.00001), deriv_max=rolling_range(s, w),
                deriv_backward_rolling_stdev=centred(back, lambda x: np.std(x, ddof=1)), deriv_backward_rolling_mean=centred(back, np.mean),
                deriv_backward_rolling_median=centred(back, np.median), deriv_backward_rolling_min=centred(back, np.min),
                deriv_backward_rolling_max=centred(back, np.max))


ORDER = ['first_order_derivative_backward', 'first_order_derivative_forward', 'first_order_derivative_backward_rolling_avg',
         'first_order_derivative_forward_rolling_avg', 'sampling_frequency', 'mounting_config_bool', 'scaled_value', 'rolling_average',
         'daily_max', 'percent_daily_max', 'deriv_max', 'deriv_backward_rolling_stdev', 'deriv_backward_rolling_mean',
         'deriv_backward_rolling_median', 'deriv_backward_rolling_min', 'deriv_backward_rolling_max']


def xgb(s, mt):
    ix, v = s.index, s.values.astype(float)
    m = int(mode_minutes(ix))
    I = N.interpolate(s, f'{m}min')
    f = m
    if m < 5:
        I = I.resample('5min').mean()
        f = 5
    ft = features(I.values.astype(float), I.index, m)
    ft['sampling_frequency'] = np.full(len(I), f)
    ft['mounting_config_bool'] = np.full(len(I), 1.0 if mt == 'single_axis_tracking' else 0.0)
    D = pd.DataFrame(ft, index=I.index)[ORDER].dropna()
    model = private(F, '_load_xgboost_clipping_model')()
    prob = model.predict_proba(D)[:, 1]
    if (np.abs(prob - 0.5) < 1e-3).any():
        raise Skip()
    pred = prob > 0.5
    at = np.zeros(len(v), bool)
    if len(D):
        j = last_at_or_before(D.index, ix)
        at = np.where(j >= 0, pred[np.maximum(j, 0)], False)
    sv = (v - np.nanmin(v)) / (np.nanmax(v) - np.nanmin(v))
    clip = [False] * len(v)
    last = max((i for i in range(len(v)) if at[i]), default=-1)
    for k in days(ix):
        c = [sv[i] for i in k if at[i] and not math.isnan(sv[i])]
        if any(at[i] for i in k) and not c:
            raise Skip()
        if not c:
            if last >= 0 and k[0] > last:
                for i in k:        # after the last day with a band: not part of the contract
                    clip[i] = None
            continue
        lo, hi = min(c), max(c)
        dm = np.nanmax(sv[k])
        for i in k:
            x = sv[i]
            pc = x / (dm + 0.00001)
            ok = max(lo, hi * 0.96) <= x and pc >= 0.9 if m < 5 else lo <= x and pc >= 0.95
            clip[i] = bool(ok and x <= hi * 1.0025 and x >= 0.1)
    return clip


@check('C06', 20)
def xgboost_filter(g):
    s, m = signal(g)
    if len(s) <= 10 or not s.notna().sum() > 5 or s.max() == s.min():
        raise Skip()
    mt = g.choice('fixed', 'single_axis_tracking')
    kw = {} if mt == 'fixed' and g.p(0.5) else dict(mounting_type=mt)
    snap = Snapshot(power=s)
    mask = must(F.xgboost_clip_filter, s, **kw) if g.p(0.5) else must(F.clip_filter, s, model='xgboost', **kw)
    snap.verify('xgboost_clip_filter')
    is_bool_series(mask, 'xgboost clipping filter')
    same_labels(mask.index, s.index, 'xgboost clipping filter')
    require(bool(mask[s.isna()].all()), 'a NaN reading is marked as clipped')
    k = 2.0 ** g.int(-8, 8)
    m2 = must(F.xgboost_clip_filter, s * k, **kw)
    require(bool((m2.values == mask.values).all()), f'scaling the power by {k} changes the mask', n=int((m2.values != mask.values).sum()))
    want = xgb(s, mt)
    mask_is(mask, s.index, [None if x is None else not x for x in want], 'xgboost clipping filter', minutes=m, options=kw)


@check('C06', 30)
def rejected(g):
    s, m = signal(g)
    s = s.iloc[:g.int(30, 60)]
    if len(s) < 25:
        raise Skip()
    f = g.choice(F.logic_clip_filter, F.xgboost_clip_filter)
    how = g.choice('unsorted', 'short', 'index', 'mounting')
    if how == 'unsorted':
        i = g.int(0, len(s) - 2)
        o = list(range(len(s)))
        o[i], o[i + 1] = o[i + 1], o[i]
        must_raise(Exception, f, s.iloc[o])
    elif how == 'short':
        must_raise(Exception, f, s.iloc[:g.choice(10, 9, 3, 10)])
    elif how == 'index':
        must_raise(Exception, f, s.reset_index(drop=True))
    else:
        must_raise(ValueError, f, s, mounting_type=g.choice('Fixed', 'tracker', None, ''))


@check('C06', 15)
def repeated_timestamps(g):
    """rows with a repeated timestamp get an answer too, and the same one as the first of them"""
    s, m = signal(g)
    if len(s) <= 20:
        raise Skip()
    base = must(F.logic_clip_filter, s)
    clipped = np.where(~base.values)[0]
    i = int(g.choice(list(clipped))) if len(clipped) and g.p(0.7) else g.int(0, len(s) - 1)
    d = pd.concat([s.iloc[:i + 1], s.iloc[i:]])
    if mode_minutes(d.index) != mode_minutes(s.index):
        raise Skip()
    mask = must(F.logic_clip_filter, d)
    is_bool_series(mask, 'repeated timestamps')
    same_labels(mask.index, d.index, 'repeated timestamps')
    require(bool(mask.values[i]) == bool(mask.values[i + 1]), 'equal rows classified differently')
