from base import *
import pvlib
import rdtools
from rdtools import filtering
from c25 import rquant


def inside(v, lo, hi):
    if v != v:
        return False
    return (lo is None or v > lo) and (hi is None or v < hi)


def strict_filter(g, f, deflo, defhi, lo0, hi0, none_ok):
    n = g.int(0, 14)
    mode = g.choice('default', 'pos', 'kw', 'onlylo', 'onlyhi')
    lo, hi = deflo, defhi
    args, kw = [], {}
    a = g.choice(g.dyadic(lo0, hi0), lo0, -INF, 0.0)
    b = g.choice(g.dyadic(lo0, hi0), hi0, INF, 1.0)
    if none_ok and g.p(0.3):
        a = None
    if none_ok and g.p(0.3):
        b = None
    names = f.__code__.co_varnames[1:3]
    if mode == 'pos':
        lo, hi, args = a, b, [a, b]
    elif mode == 'kw':
        lo, hi, kw = a, b, {names[0]: a, names[1]: b}
    elif mode == 'onlylo':
        lo, kw = a, {names[0]: a}
    elif mode == 'onlyhi':
        hi, kw = b, {names[1]: b}
    special = [x for x in (lo, hi) if x is not None] + [INF, -INF, 0.0, lo0 - 1, hi0 + 1]
    eps = [np.nextafter(x, INF) for x in special if np.isfinite(x)] + [np.nextafter(x, -INF) for x in special if np.isfinite(x)]
    v = g.values(n, lo0 - 5, hi0 + 5, special=special + eps, pspecial=0.5)
    s = pd.Series(v, index=g.times(n), name=g.name())
    if n and g.p(0.1):
        s = s.dropna().astype(object).astype(float)
    snap = Snapshot(s=s)
    m = must(f, s, *args, **kw)
    # an infinite measurement is inside only for a missing/infinite... strict comparison decides
    def want(x):
        if x != x:
            return False
        L = -INF if lo is None else lo
        H = INF if hi is None else hi
        return (x > L) and (x < H)
    mask_is(m, s.index, [want(x) for x in s.values], f.__name__, lo=lo, hi=hi, series=s)
    snap.verify(f.__name__)


@check('C04', 120)
def normalized(g):
    strict_filter(g, filtering.normalized_filter, 0.01, None, 0.0, 2.0, True)


@check('C04', 60)
def poa(g):
    strict_filter(g, filtering.poa_filter, 200, 1200, 0.0, 1300.0, False)


@check('C04', 60)
def tcell(g):
    strict_filter(g, filtering.tcell_filter, -50, 110, -60.0, 120.0, False)


def csi_want(x, y, th):
    if x != x or y != y:
        return False
    if y == 0:
        return False if x != 0 else False
    q = x / y
    lo, hi = 1.0 - th, 1.0 + th
    if min(abs(q - lo), abs(q - hi)) < 1e-9 and not exact(th, q):
        return None
    return lo <= q <= hi


def exact(th, q):
    return (th * 2**20) == int(th * 2**20) and (q * 2**20) == int(q * 2**20)


@check('C04', 100)
def csi(g):
    n = g.int(0, 14)
    ix = g.times(n)
    y = g.values(n, 1, 1000, special=(0.0, 64.0, 512.0, -64.0, 256.0), pspecial=0.6)
    use_default = g.p(0.3)
    th = 0.15 if use_default else g.choice(0.25, 0.125, 0.0, 0.5, 0.15, 0.05, 1.0)
    fac = [g.choice(1 - th, 1 + th, 1.0, 1 - th - 1 / 64, 1 + th + 1 / 64, g.dyadic(0, 3)) for _ in range(n)]
    x = y * np.array(fac) if n else y
    x = np.array([NAN if g.p(0.1) else (g.choice(0.0, 100.0) if b == 0 else v) for v, b in zip(x, y)])
    a, b = pd.Series(x, ix, dtype=float), pd.Series(y, ix, dtype=float)
    snap = Snapshot(a=a, b=b)
    via = g.p(0.5)
    kw = {} if use_default else {'threshold': th}
    if via:
        m = must(filtering.clearsky_filter, a, b, model='csi', **kw)
    else:
        m = must(filtering.csi_filter, a, b, **kw)
    mask_is(m, ix, [csi_want(p, q, th) for p, q in zip(x, y)], 'csi', th=th, measured=a, clearsky=b)
    snap.verify('csi_filter')


@check('C04', 60)
def insolation(g):
    n = g.int(1, 16)
    s = pd.Series(g.values(n, 0, 20, special=(0.0, 5.0, 5.0, 7.0), pspecial=0.5, nan=0.15), g.times(n))
    default = g.p(0.4)
    q = 0.1 if default else g.choice(0.0, 0.25, 0.5, 1.0, 0.9, 0.01)
    m = must(filtering.insolation_filter, s) if default else must(filtering.insolation_filter, s, g and q)
    v = np.sort(s.dropna().values)
    if len(v) == 0:
        want = [False] * n
    else:
        pos = q * (len(v) - 1)
        lo = int(np.floor(pos))
        hi = min(lo + 1, len(v) - 1)
        lim = v[lo] + (v[hi] - v[lo]) * (pos - lo)
        exactpos = abs(pos - round(pos)) < 1e-12 or v[lo] == v[hi]
        if exactpos and abs(pos - round(pos)) < 1e-12:
            lim = v[int(round(pos))]
            # float noise in q*(n-1) can move the limit by an ulp: leave equality undecided unless trivially exact
            exactpos = q in (0.0, 0.5, 0.25, 1.0)
        want = [False if x != x else (None if (abs(x - lim) < 1e-9 and not exactpos) else bool(x >= lim)) for x in s.values]
    mask_is(m, s.index, want, 'insolation_filter', q=q, series=s)


@check('C04', 60)
def quantile_clip(g):
    n = g.int(1, 30)
    s = pd.Series(g.values(n, 0, 50, special=(0.0, 50.0, 49.5, 48.0), pspecial=0.5), g.times(n))
    default = g.p(0.4)
    q = 0.98 if default else g.choice(0.5, 0.9, 1.0, 0.25)
    kw = {} if default else {'quantile': q}
    m = must(filtering.quantile_clip_filter, s, **kw) if g.p(0.5) else must(filtering.clip_filter, s, model='quantile', **kw)
    v = rquant(s.values, q)
    want = [False if (x != x or v != v) else (None if abs(x - 0.99 * v) < 1e-9 * max(1, abs(v)) else bool(x < 0.99 * v))
            for x in s.values]
    mask_is(m, s.index, want, 'quantile_clip_filter', q=q, series=s)


@check('C04', 25)
def hour_angle(g):
    import pvlib
    n = g.int(1, 30)
    tz = g.choice('UTC', 'Etc/GMT+7', 'America/Denver', 'Asia/Kolkata')
    ix = g.times(n, steps=('15min', '1h', '7min'), tz=tz)
    s = pd.Series(g.values(n), ix)
    lat, lon = g.choice(0, 40, -35.5), g.choice(-105.0, 0, 77.2, 179.0)
    default = g.p(0.4)
    lo, hi = (-30, 30) if default else (g.choice(-90, -15, 0, -180), g.choice(45, 15, 0, 180))
    kw = {} if default else dict(min_hour_angle=lo, max_hour_angle=hi)
    m = must(filtering.hour_angle_filter, s, lat, lon, **kw)
    eot = pvlib.solarposition.get_solarposition(ix, lat, lon)['equation_of_time'].values
    utc = ix.tz_convert('UTC')
    off = np.array([t.utcoffset().total_seconds() / 3600 for t in ix])
    loc = np.array([t.hour + t.minute / 60 + t.second / 3600 for t in ix])
    ha = 15 * (loc - 12 - off) + lon + eot / 4
    # on the day of a clock change pvlib's own hour angle is off by the change: not decided here
    day = [t.normalize() for t in ix]
    shift = [d.utcoffset() != t.utcoffset() for d, t in zip(day, ix)]
    want = [None if x or min(abs(h - lo), abs(h - hi)) < 1e-6 else bool(lo <= h <= hi) for h, x in zip(ha, shift)]
    mask_is(m, ix, want, 'hour_angle_filter', lo=lo, hi=hi, lon=lon)


@check('C04', 12)
def dispatch(g):
    n = 24 * 3
    ix = pd.date_range('2020-06-01', periods=n, freq='h', tz=g.choice('Etc/GMT+7', 'UTC'))
    h = np.arange(n) % 24
    base_ = np.clip(np.sin((h - 5) / 14 * np.pi), 0, None) * 1000
    cl = pd.Series(base_, ix)
    me = pd.Series(base_ * np.array([g.choice(1.0, 0.6, 1.1) for _ in range(n)]), ix)
    bad = g.choice('unknown', '', 'CSI', None, 'pvlibx')
    must_raise(ValueError, filtering.clearsky_filter, me, cl, model=bad)
    must_raise(ValueError, filtering.clip_filter, me, model=bad)
    st, e, _ = attempt(filtering.pvlib_clearsky_filter, me, cl, window_length=180)
    if st == 'exc' and 'Optimizer' in str(e):
        raise Skip()       # pvlib's own optimiser gives up on these values
    a = must(filtering.clearsky_filter, me, cl, window_length=180)
    b = must(filtering.pvlib_clearsky_filter, me, cl, window_length=180)
    c = must(filtering.clearsky_filter, me, cl, model='pvlib', window_length=180)
    require(a.equals(b) and c.equals(b), 'clearsky_filter does not apply the pvlib model')
    a = must(filtering.clip_filter, me, rolling_range_max_cutoff=g.choice(0.2, 0.4))
    d = must(filtering.clip_filter, me, model='logic')
    require(d.equals(must(filtering.logic_clip_filter, me)), 'clip_filter does not apply the logic model')


@check('C04', 20)
def pvlib_options(g):
    """the Reno-Hansen filter hands its series and options to pvlib, or the published options for the sampling interval"""
    import inspect
    real = pvlib.clearsky.detect_clearsky
    sig = inspect.signature(real)
    seen = []

    def fake(*a, **k):
        seen.append(sig.bind(*a, **k).arguments)
        return real(*a, **k)
    step = g.choice(0.5, 1, 3, 5, 10, 15, 20, 30, 60)
    n = 60
    ix = pd.date_range('2020-06-01 09:00', periods=n, freq=pd.Timedelta(minutes=step), tz='UTC')
    cl = pd.Series(600 + 50 * np.sin(np.arange(n) / 9), ix)
    me = cl * g.choice(1.0, 0.95) + pd.Series([g.choice(0, 0, 5, -9) for _ in range(n)], ix)
    names = ['window_length', 'mean_diff', 'max_diff', 'lower_line_length', 'upper_line_length', 'var_diff', 'slope_dev']
    default = [90, 75, 75, -45, 80, 0.032, 75]
    other = [max(60, 4 * step), 50.0, 61.0, -10, 33, 0.02, 40]
    kw = {k: v for k, v in zip(names, other) if g.p(0.4)}
    want = dict(zip(names, default))
    want.update(kw)
    if g.p(0.5):
        kw['lookup_parameters'] = True
        q = min(max(step, 1), 30)
        for k, t in (('window_length', [50, 60, 90, 120]), ('max_diff', [60, 65, 75, 90]), ('var_diff', [0.005, 0.01, 0.032, 0.07]),
                     ('slope_dev', [50, 60, 75, 96])):
            want[k] = np.interp(q, [1, 5, 15, 30], t)
    if g.p(0.3):
        kw['max_iterations'] = want['max_iterations'] = 7
    f = g.choice(filtering.pvlib_clearsky_filter, filtering.clearsky_filter)
    pvlib.clearsky.detect_clearsky = fake
    try:
        st, out, _ = attempt(f, me, cl, **kw)
    finally:
        pvlib.clearsky.detect_clearsky = real
    if len(seen) != 1:
        raise Skip()
    got = seen[0]
    for k, v in want.items():
        require(k in got and close(float(got[k]), float(v)), f'option {k} of the clear-sky filter', got=got.get(k), want=v, options=kw,
                minutes=step)
    same_values(np.asarray(got['measured'], float), me.values, 'measured irradiance')
    same_values(np.asarray(got['clearsky'], float), cl.values, 'clear-sky irradiance')
    if st == 'exc':
        raise Skip()
    is_bool_series(out, 'pvlib_clearsky_filter')
    same_labels(out.index, ix, 'pvlib_clearsky_filter')
