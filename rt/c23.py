from base import *
import rdtools.clearsky_temperature as CT
import h5py
import datetime


class Fake(dict):
    """stands in for the climatology file (not shipped in this sandbox)"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def call(day, night, *a, **k):
    real = h5py.File
    h5py.File = lambda *x, **y: Fake(temperature=dict(day=day, night=night))
    try:
        return must(CT.get_clearsky_tamb, *a, **k)
    finally:
        h5py.File = real


def cell(n, x):
    """nearest of n cells; None when half way"""
    if abs(x - math.floor(x) - 0.5) < 1e-9:
        return None
    return int(math.floor(x + 0.5))


def smooth(v, window, std):
    """centred Gaussian-weighted mean over `window` days (the middle day of an even window is the later one)"""
    w = [math.exp(-0.5 * ((k - (window - 1) / 2) / std) ** 2) for k in range(window)]
    off = (window - 1) // 2
    out = []
    for i in range(len(v)):
        a = b = 0.0
        for k in range(window):
            j = i + off - window + 1 + k
            if 0 <= j < len(v) and v[j] == v[j]:
                a += w[k] * v[j]
                b += w[k]
        out.append(a / b if b else NAN)
    return out


@check('C23', 30)
def temperature(g):
    nlon, nlat = g.choice((36, 18), (7, 5), (72, 36))
    rs = g.np
    day = rs.uniform(5, 40, (nlon, nlat, 12))
    night = day - rs.uniform(2, 15, (nlon, nlat, 12))
    lat = g.choice(-90.0, 90.0, 0.0, g.dyadic(-90, 90, 8), g.dyadic(-90, 90, 8))
    lon = g.choice(-180.0, 180.0, 179.96875, -179.96875, 0.0, g.dyadic(-180, 180, 8), g.dyadic(-180, 180, 8))
    li = cell(nlon, nlon * ((lon - 180) % 360) / 360)
    la = cell(nlat, nlat * (90 - lat) / 180)
    if li is None or la is None:
        raise Skip()
    li, la = li % nlon, min(la, nlat - 1)
    if g.p(0.2):
        bad = g.int(0, 11)
        day[li, la, bad] = NAN
        night[li, la, bad] = NAN
    tz = g.choice('UTC', 'Etc/GMT+7', 'Etc/GMT-9', 'Asia/Kolkata', 'America/Denver', 'Europe/Berlin', 'America/Santiago',
                  'America/Havana', 'Atlantic/Azores')
    step = g.choice('1h', '15min', '30min', '1h', '2h', '3h', '90min')
    start = pd.Timestamp(g.choice('2019-01-01', '2020-02-27', '2021-12-30', '2021-07-10', '2021-03-20', '2021-11-20'), tz=tz) \
        + pd.Timedelta(minutes=g.choice(0, 0, 5, 60, 780))
    n = g.choice(1, 24, 60, 120)
    times = pd.date_range(start, periods=n, freq=step)
    if g.p(0.3) and n > 12:
        keep = g.choice(11, 2)
        times = pd.DatetimeIndex(list(times[:keep]) + [t for t in times[keep:] if not g.p(0.2)])
    times.name = g.choice(None, 'when')
    kw = {}
    win, std = 40, 20
    if g.p(0.3):
        win = kw['window_size'] = g.choice(40, 20, 11)
        std = kw['gauss_std'] = g.choice(20, 5)
    if n < 3:
        times = pd.date_range(start, periods=n, freq=step)
    snap = Snapshot(times=times)
    out = call(day, night, times, lat, lon, **kw)
    snap.verify('get_clearsky_tamb')
    same_labels(out.index, times, 'clear-sky temperature')
    d0 = times[0].date() - datetime.timedelta(days=win)
    days = (times[-1].date() - times[0].date()).days + 2 * win + 1
    dates = [d0 + datetime.timedelta(days=i) for i in range(days)]
    # the first instant of each local day
    mid = [pd.Timestamp(d).tz_localize(tz, ambiguous=True, nonexistent='shift_forward') for d in dates]
    sd = smooth([day[li, la, d.month - 1] for d in dates], win, std)
    sn = smooth([night[li, la, d.month - 1] for d in dates], win, std)

    def at(t):
        # the smoothed climatology between the starts of two local days
        i = min(max(sum(m <= t for m in mid) - 1, 0), days - 2)
        fr = (t - mid[i]) / (mid[i + 1] - mid[i])
        a = sd[i] + (sd[i + 1] - sd[i]) * fr
        b = sn[i] + (sn[i + 1] - sn[i]) * fr
        h = t.hour + t.minute / 60
        off = t.utcoffset().total_seconds() / 3600
        return (a + b) / 2 + 0.35 * (a - b) * math.cos((h + 8 + lon / 15 - off) / 24 * 2 * math.pi)
    want = [at(t) for t in times]
    if not all(x == x for x in want):
        # pandas carries the last value into missing months; only the complete case is specified here
        raise Skip()
    same_values(out.values, want, 'clear-sky temperature', rtol=1e-6, atol=1e-6, lat=lat, lon=lon)


@check('C23', 40)
def cells(g):
    """every coordinate maps to one cell: a constant per-cell climatology is returned unchanged"""
    nlon, nlat = g.choice((36, 18), (12, 7))
    grid = np.arange(nlon * nlat, dtype=float).reshape(nlon, nlat)
    day = np.repeat(grid[:, :, None], 12, axis=2)
    lat = g.choice(-90.0, 90.0, -89.9, g.dyadic(-90, 90, 16))
    lon = g.choice(-180.0, 180.0, 179.99, -179.99, g.dyadic(-180, 180, 16))
    li = cell(nlon, nlon * ((lon - 180) % 360) / 360)
    la = cell(nlat, nlat * (90 - lat) / 180)
    if li is None or la is None:
        raise Skip()
    times = pd.date_range('2020-06-01', periods=4, freq='1h', tz='UTC')
    out = call(day, day, times, lat, lon)
    same_values(out.values, [grid[li % nlon, min(la, nlat - 1)]] * 4, 'climatology cell', lat=lat, lon=lon)


@check('C23', 6)
def dst(g):
    """a zone with daylight saving: the daily cycle follows the UTC offset of each time"""
    day = np.full((12, 6, 12), 30.0)
    night = np.full((12, 6, 12), 10.0)
    tz = g.choice('America/Denver', 'Europe/Berlin', 'America/Santiago')
    times = pd.date_range(g.choice('2021-03-12', '2021-11-05', '2021-07-01'), periods=60, freq='1h', tz=tz)
    lon = g.dyadic(-170, 170, 4)
    out = call(day, night, times, 20.0, lon)
    same_labels(out.index, times, 'clear-sky temperature')
    want = [20 + 7 * math.cos((t.hour + 8 + lon / 15 - t.utcoffset().total_seconds() / 3600) / 12 * math.pi) for t in times]
    same_values(out.values, want, 'daily cycle', rtol=1e-6, atol=1e-6)
