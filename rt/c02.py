from base import *
from c01 import valid, median, interp_at, gen_gap
from rdtools.normalization import energy_from_power

HOUR = 3600 * 10**9


def bins_of(start, last, f):
    """right-closed, right-labelled intervals counted from the first time: (label - f, label]"""
    n = max(0, -(-(last - start) // f))
    return [start + k * f for k in range(0, n + 1)]


def energies(s, f, mx, kind):
    """contract: {label ns: Wh} for power s, fixed interval f ns"""
    times = [int(t) for t in s.index.asi8]
    steps = [b - a for a, b in zip(times, times[1:])]
    step = median(steps)
    M = step if mx is None else mx.total_seconds() * 1e9
    p = valid(s)
    samples = list(times)
    if f <= step:
        samples = [times[0] + k * f for k in range((times[-1] - times[0]) // f + 1)]
        p = [(t, interp_at(p, t, M)) for t in samples]
        p = [(t, v) for t, v in p if v == v]
    if not p:
        raise Skip
    labels = bins_of(samples[0], samples[-1], f)
    U = sorted(set(samples) | set(labels))
    pv = dict(p)
    pt = [t for t, _ in p]

    def around(x):
        prev = nxt = None
        for t in pt:
            if t < x:
                prev = t
            if t >= x and nxt is None:
                nxt = t
        return prev, nxt

    def supported(x):
        a, b = around(x)
        return a is not None and b is not None and b - a <= M

    def val(x):
        if x == U[0] and x in pv:
            return pv[x]
        if not supported(x):
            return NAN
        if x in pv:
            return pv[x]
        a, b = around(x)
        return pv[a] + (pv[b] - pv[a]) * ((x - a) / (b - a))
    contrib = {}
    for u, v in zip(U, U[1:]):
        if kind == 'right_labeled':
            c = pv[around(v)[1]] * (v - u) / HOUR if supported(v) else NAN
        else:
            c = (val(u) + val(v)) / 2 * (v - u) / HOUR
        contrib[v] = c
    out = {}
    for L in labels[1:]:
        cs = [c for v, c in contrib.items() if L - f < v <= L and c == c]
        e = sum(cs) if cs else NAN
        nx = [i for i, t in enumerate(times) if t >= L]
        if nx and nx[0] > 0 and steps[nx[0] - 1] > M:
            e = NAN
        out[L] = e
    return out


def gen_power(g, nan=None):
    tz = g.choice(None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata', 'America/Denver')
    n = g.int(2, 16)
    ix = g.times(n, steps=('1min', '15min', '1h'), tz=tz)
    v = g.values(n, 0, 1000, nan=g.choice(0, 0, 0.2, 0.4) if nan is None else nan)
    s = pd.Series(v, ix, name=g.name())
    if not valid(s):
        raise Skip
    return s


@check('C02', 260)
def integral(g):
    s = gen_power(g)
    if g.p(0.3):
        s.iloc[-g.int(1, max(1, len(s) - 1)):] = NAN
    if g.p(0.3):
        s.iloc[:g.int(1, max(1, len(s) - 1))] = NAN
    if not valid(s):
        raise Skip
    times = [int(t) for t in s.index.asi8]
    step = median([b - a for a, b in zip(times, times[1:])])
    if step != int(step):
        raise Skip
    step = int(step)
    kind = g.choice('right_labeled', 'instantaneous')
    default = g.p(0.2)
    f = step if default else g.choice(step, step, 2 * step, 4 * step, step // 2, step // 3, 3 * step // 2)
    f = f - f % 10**9
    if f <= 0 or (default and f != step):
        raise Skip
    mx = None if g.p(0.4) else gen_gap(g, s)
    if mx is not None and g.p(0.4):
        mx = pd.Timedelta(step * g.choice(1, 2, 3), 'ns')
    sec = f // 10**9
    tf = None if default else g.choice(f'{sec}s', pd.tseries.frequencies.to_offset(pd.Timedelta(sec, 's')))
    kw = {}
    if tf is not None:
        kw['target_frequency'] = tf
    if mx is not None:
        kw['max_timedelta'] = mx
    if kind != 'right_labeled' or g.p(0.5):
        kw['power_type'] = kind
    want = energies(s, f, mx, kind)
    snap = Snapshot(s=s)
    out = must(energy_from_power, s, **kw)
    snap.verify('energy_from_power')
    require(isinstance(out, pd.Series), 'not a series')
    require(out.name == 'energy_Wh', 'energy name', got=out.name)
    require(str(out.index.tz) == str(s.index.tz), 'time zone', got=out.index.tz, want=s.index.tz)
    got = [int(t) for t in out.index.asi8]
    require(got == sorted(want), 'interval labels', got=got, want=sorted(want), power=s, kw=kw)
    same_values(out.values, [want[t] for t in got], 'energy', rtol=1e-6, atol=1e-6, power=s, kw=kw)


@check('C02', 60)
def additive_and_linear(g):
    """gap-free data: energy of a coarse interval = sum of its fine intervals; scales with power"""
    n = g.int(5, 30)
    tz = g.choice(None, 'UTC', 'Asia/Kolkata')
    ix = g.times(n, steps=('1min', '15min', '1h'), tz=tz, regular=True)
    s = pd.Series(g.values(n, 0, 1000, nan=0), ix)
    step = int(ix.asi8[1] - ix.asi8[0]) // 10**9
    k = g.int(2, 4)
    kind = g.choice('right_labeled', 'instantaneous')
    fine = must(energy_from_power, s, f'{step}s', power_type=kind)
    coarse = must(energy_from_power, s, f'{k * step}s', power_type=kind)
    require(close(fine.sum(), coarse.sum(), 1e-9), 'energy not additive', fine=fine.sum(), coarse=coarse.sum(), power=s)
    require(not fine.isna().any() and not coarse.isna().any(), 'gap-free energy has NaN', power=s)
    for i, (t, e) in enumerate(coarse.items()):
        part = fine.iloc[i * k:(i + 1) * k]
        require(close(part.sum(), e, 1e-9), 'coarse interval is not the sum of its parts', at=t, got=e, want=part.sum())
    c = g.choice(0.5, 2, 3.75)
    same_values(must(energy_from_power, s * c, f'{k * step}s', power_type=kind).values, (coarse * c).values, 'scaling')


@check('C02', 40)
def single(g):
    v = g.choice(0.0, 5.5, 1000.0, NAN)
    tz = g.tz()
    f = g.choice('1min', '15min', '1h', '1D', '90s')
    hrs = pd.Timedelta(f) / pd.Timedelta('1h') if f != '1D' else 24.0
    ix = pd.DatetimeIndex([g.start(tz)])
    s = pd.Series([v], ix, name='p')
    o = must(energy_from_power, s, f, power_type='right_labeled') if g.p(0.5) else must(energy_from_power, s, f)
    same_labels(o.index, ix, 'single')
    same_values(o.values, [v * hrs], 'single-sample energy')
    require(o.name == 'energy_Wh', 'name')
    s2 = pd.Series([v], pd.date_range(ix[0], periods=1, freq=f))
    same_values(must(energy_from_power, s2).values, [v * hrs], 'single-sample energy from the index frequency')
    g2 = g.choice('2min', '3h')
    same_values(must(energy_from_power, s2, g2).values, [v * (pd.Timedelta(g2) / pd.Timedelta('1h'))],
                'target frequency takes precedence')
    s3 = s.copy()
    s3.index.freq = None
    must_raise(ValueError, energy_from_power, s3)
    must_raise(ValueError, energy_from_power, s, f, power_type='instantaneous')
    must_raise(ValueError, energy_from_power, s2, power_type='instantaneous')


@check('C02', 30)
def rejects(g):
    s = gen_power(g, nan=0)
    must_raise(ValueError, energy_from_power, s, '1h', power_type=g.choice('left', 'right', 'average', ''))
    must_raise(ValueError, energy_from_power, s.reset_index(drop=True), '1h')
    must_raise(ValueError, energy_from_power, s.reset_index(drop=True))


@check('C02', 25)
def overlong_gap_is_missing(g):
    """deleting samples makes the gap's intervals NaN, not an estimate"""
    n = g.int(20, 40)
    ix = pd.date_range(g.start(g.choice(None, 'UTC')), periods=n, freq='15min')
    s = pd.Series(g.values(n, 1, 1000, nan=0), ix)
    a = g.int(3, n - 10)
    k = g.int(2, 6)
    kind = g.choice('right_labeled', 'instantaneous')
    t = s.drop(s.index[a:a + k]) if g.p(0.5) else s.where(~s.index.isin(s.index[a:a + k]))
    f = g.choice('15min', '5min')
    e = must(energy_from_power, t, f, power_type=kind)
    inside = e[(e.index > s.index[a - 1]) & (e.index <= s.index[a + k])]
    require(inside.isna().all(), 'energy reported inside an over-long gap', power=t, energy=e)
    mx = pd.Timedelta('15min') * (k + 1)
    e2 = must(energy_from_power, t, f, mx, kind)
    require(e2.notna().all(), 'energy missing although the gap is allowed', power=t, energy=e2)
