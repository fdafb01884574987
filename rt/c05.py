from base import *
import rdtools.filtering as F
from rdtools.filtering import two_way_window_filter as TW, hampel_filter as HA, directional_tukey_filter as DT
D = pd.Timedelta('1D')


def med(v):
    v = sorted(x for x in v if x == x)
    n = len(v)
    return NAN if not n else (v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2)


def quantile(v, q):
    v = [x for x in v if x == x]
    return float(np.quantile(v, q)) if v else NAN


def side(ix, v, period, forward, least=5):
    """median of the points within `period` before (after) each point, both ends included"""
    n = len(v)
    out = []
    for i in range(n):
        if isinstance(period, int):
            k = range(i, min(n, i + period + 1)) if forward else range(max(0, i - period), i + 1)
        else:
            lo, hi = (ix[i], ix[i] + period) if forward else (ix[i] - period, ix[i])
            k = [j for j in range(n) if lo <= ix[j] <= hi]
        w = [v[j] for j in k if v[j] == v[j]]
        out.append(med(w) if len(w) >= least else NAN)
    return out


def centred(ix, v, k):
    n = len(v)
    out = []
    for i in range(n):
        if isinstance(k, int):
            a, b = i - k // 2, i + (k - 1) // 2
            js = range(max(0, a), min(n, b + 1))
        else:
            h = pd.Timedelta(k) / 2
            js = [j for j in range(n) if ix[i] - h < ix[j] <= ix[i] + h]
        out.append(med([v[j] for j in js]))
    return out


def data(g):
    n = g.int(1, 45)
    tz = g.choice(None, 'UTC', 'Etc/GMT+7')
    start = pd.Timestamp('2020-02-20', tz=tz)
    t, days = 0, []
    for _ in range(n):
        days.append(t)
        t += g.choice(1, 1, 1, 1, 2, 3, 9, 20)
    ix = pd.DatetimeIndex([start + d * D for d in days]) if g.p(0.6) else pd.date_range(start, periods=n, freq='D')
    base = g.choice(1.0, 0.5, 400.0)
    v = np.array([base * (1 + g.choice(0, 0, 0.01, -0.02, 0.03125, 0.25, -0.5, 1.0, -1.0) * g.choice(1, 1, 0.5)
                          + g.dyadic(-0.02, 0.02, 4096)) for _ in range(n)])
    if g.p(0.4):
        v[[g.p(0.15) for _ in range(n)]] = NAN
    return pd.Series(v, ix, name=g.name())


def below(a, b, strict=True, tol=1e-9):
    """a < b; None when too close to call"""
    if a != a or b != b:
        return False
    if abs(a - b) <= tol * max(1, abs(a), abs(b)):
        return None
    return bool(a < b)


def both(*xs):
    return False if any(x is False for x in xs) else (None if any(x is None for x in xs) else True)


def either(*xs):
    return True if any(x is True for x in xs) else (None if any(x is None for x in xs) else False)


@check('C05', 150)
def two_way(g):
    s = data(g)
    kw = {}
    period, thr = 7 * D, 0.03
    if g.p(0.6):
        period = kw['roll_period'] = g.choice(7 * D, 3 * D, 10 * D, 30 * D, 6, 10)
    if g.p(0.5):
        thr = kw['outlier_threshold'] = g.choice(0.03, 0.01, 0.2, 0.6)
    snap = Snapshot(series=s)
    m = must(TW, s, **kw)
    snap.verify('two_way_window_filter')
    q = quantile(s.values, 0.99)
    v = [x / q for x in s.values]
    b, f = side(s.index, v, period, False), side(s.index, v, period, True)
    want = []
    for x, mb, mf in zip(v, b, f):
        db = abs(x - mb) if x == x and mb == mb else 0.0
        df = abs(x - mf) if x == x and mf == mf else 0.0
        want.append(either(below(db, thr), below(df, thr)))
    mask_is(m, s.index, want, 'two_way_window_filter', series=s, options=kw)


@check('C05', 150)
def hampel(g):
    s = data(g)
    kw = {}
    k, t0 = '14d', 3
    if g.p(0.6):
        k = kw['k'] = g.choice('14d', '6d', '31d', 5, 6, 9)
    if g.p(0.5):
        t0 = kw['t0'] = g.choice(3, 1, 0.5, 10)
    snap = Snapshot(series=s)
    m = must(HA, s, **kw)
    snap.verify('hampel_filter')
    md = centred(s.index, list(s.values), k)
    d = [abs(a - b) if a == a and b == b else NAN for a, b in zip(md, s.values)]
    mad = centred(s.index, d, k)
    want = []
    for x, y in zip(d, mad):
        lim = t0 * 1.4826 * y
        if x != x or y != y:
            want.append(False)
        elif x == 0:
            want.append(True)
        else:
            lt = below(lim, x)
            want.append(None if lt is None else not lt)
    mask_is(m, s.index, want, 'hampel_filter', series=s, options=kw)


@check('C05', 150)
def tukey(g):
    s = data(g)
    kw = {}
    period, k = 7 * D, 1.5
    if g.p(0.6):
        period = kw['roll_period'] = g.choice(7 * D, 3 * D, 10 * D, 30 * D, 6, 10)
    if g.p(0.6):
        k = kw['k'] = g.choice(1.5, 0.5, 3, 1, 0.25)
    snap = Snapshot(series=s)
    m = must(DT, s, **kw)
    snap.verify('directional_tukey_filter')
    v = list(s.values)
    cols = []
    for fwd in (False, True):
        md = side(s.index, v, period, fwd)
        d = [a - b for a, b in zip(v, md)]
        q1, q3 = quantile(d, 0.25), quantile(d, 0.75)
        lo, hi = q1 - k * (q3 - q1), q3 + k * (q3 - q1)
        cols.append([both(below(lo, x), below(x, hi)) for x in d])
    want = [either(a, b) for a, b in zip(*cols)]
    mask_is(m, s.index, want, 'directional_tukey_filter', series=s, options=kw)
