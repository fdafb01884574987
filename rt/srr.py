"""shared: SRR inputs and the executable contract of the daily table and the interval summary"""
from base import *
import rdtools.soiling as SO


def med(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def inputs(g, n=None, clean=False):
    n = n or g.int(70, 260)
    tz = g.choice(None, 'UTC', 'Etc/GMT+7')
    ix = pd.date_range(pd.Timestamp(g.choice('2019-01-01', '2020-02-20', '2018-11-15'), tz=tz), periods=n, freq='D')
    rate = 0.0
    v, lvl = [], 1.0
    events = []
    nxt = g.int(10, 40)
    for i in range(n):
        if i == nxt:
            lvl = g.choice(1.0, 1.0, 1 - g.dyadic(0, 0.05, 256))
            nxt = i + g.choice(4, 7, 12, 20, 30, 45, 60)
            rate = g.choice(0.001, 0.002, 0.004, 0.0, -0.001, 0.01)
            events.append(i)
        lvl -= rate
        v.append(max(lvl, 0.1) * (1 + (g.dyadic(-1, 1, 512) * g.choice(0.0, 0.005, 0.01))))
    if g.p(0.35):
        # steady soiling with small recoveries: the shifts of the rolling median are rarely zero
        rate, lvl, v, events = g.choice(0.001, 0.002, 0.004), 1.0, [], []
        for i in range(n):
            if g.p(0.06):
                lvl += rate * g.choice(3, 4, 6, 10, 20)
                events.append(i)
            lvl -= rate
            v.append(max(lvl, 0.1) + g.dyadic(-1, 1, 512) * rate * g.choice(0.25, 1.0))
    v = np.array(v) * g.choice(1, 1, 0.8, 300)
    if g.p(0.15):
        # a sudden drop
        k = g.int(5, n - 5)
        v[k:] *= 0.9
    if not clean:
        if g.p(0.5):
            v[[g.p(0.08) for _ in range(n)]] = NAN
        for _ in range(g.choice(0, 0, 1, 2)):
            a = g.int(0, n - 1)
            v[a:a + g.choice(3, 8, 12, 13, 14, 15, 25)] = NAN
        if np.isfinite(v).sum() < 30:
            raise Skip()
    pm = pd.Series(v, ix, name=g.name())
    ins = pd.Series(g.values(n, 500, 8000, nan=0 if clean else g.choice(0, 0, 0.05), special=(0.0,), pspecial=0.02), ix,
                    name='insol')
    pr = [g.choice(0.0, 0.0, 0.0, 0.0, 0.0, 0.005, 0.01, 0.012, 0.5) if not g.p(0.7) else 0.0 for _ in range(n)]
    for e in events:
        if g.p(0.6):
            pr[min(n - 1, max(0, e + g.choice(-2, -1, 0, 1)))] = 0.75
    precip = pd.Series(pr, ix, name='rain')
    return pm, ins, precip


def options(g):
    o = {}
    if g.p(0.5):
        o['day_scale'] = g.choice(13, 7, 9, 5)
    if g.p(0.4):
        o['clean_threshold'] = g.choice('infer', 0.01, 0.03, 0.05)
    if g.p(0.4):
        o['recenter'] = g.choice(True, False)
    if g.p(0.6):
        o['clean_criterion'] = g.choice('shift', 'precip_and_shift', 'precip_or_shift', 'precip')
    if g.p(0.3):
        o['precip_threshold'] = g.choice(0.01, 0.005, 0.6, 0.25)
    if g.p(0.3):
        o['outlier_factor'] = g.choice(1.5, 3, 0.5)
    return o


def entry(g):
    """one of the two public entry points"""
    def direct(pm, ins, precipitation_daily=None, **kw):
        return SO.SRRAnalysis(pm, ins, precipitation_daily).run(**kw)
    return g.choice(SO.soiling_srr, direct)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def daily(pm, ins, precip, day_scale=13, clean_threshold='infer', recenter=True, clean_criterion='shift', precip_threshold=0.01,
          outlier_factor=1.5):
    """dict of lists over the days from the first to the last valid reading"""
    v = list(pm.values)
    ok = [i for i, x in enumerate(v) if x == x]
    a, b = ok[0], ok[-1]
    ix = pm.index[a:b + 1]
    v = v[a:b + 1]
    n = len(v)
    rn = med([x for x in v[:365] if x == x]) if recenter else 1
    pn = [x / rn for x in v]
    valid = [x == x for x in pn]
    # forward filled over at most day_scale days
    ff, last, age = [], NAN, 0
    for i in range(n):
        if valid[i]:
            last, age = pn[i], 0
        else:
            age += 1
        ff.append(last if age <= day_scale else NAN)
    lo = day_scale // 2
    hi = (day_scale - 1) // 2
    rm = []
    for i in range(n):
        w = ff[i - lo:i + hi + 1] if i - lo >= 0 and i + hi < n else []
        rm.append(med(w) if len(w) == day_scale and all(x == x for x in w) else NAN)
    delta = [NAN] + [rm[i] - rm[i - 1] for i in range(1, n)]
    thr = clean_threshold
    if thr == 'infer':
        ad = [abs(d) for d in delta if d == d]
        if not ad:
            thr = NAN
        else:
            q1, q3 = np.quantile(ad, 0.25), np.quantile(ad, 0.75)
            thr = q3 + outlier_factor * (q3 - q1)
    if any(d == d and near(d, thr) for d in delta):
        raise Skip()
    shift = [d > thr for d in delta]
    pr = [precip.get(t, NAN) if precip is not None else 0 for t in ix]
    rain = [p > precip_threshold for p in pr]
    if clean_criterion == 'shift':
        ev = list(shift)
    elif clean_criterion == 'precip':
        ev = list(rain)
    elif clean_criterion == 'precip_or_shift':
        ev = [x or y for x, y in zip(shift, rain)]
    else:
        ev = [shift[i] and any(rain[max(0, i - 1):i + 2]) for i in range(n)]
    # the last day before and the first day after more than day_scale missing days
    pos = [i for i in range(n) if valid[i]]
    for p, q in zip(pos, pos[1:]):
        if q - p - 1 > day_scale:
            ev[p] = ev[q] = True
    run, c = [], 0
    for e in ev:
        c += bool(e)
        run.append(c)
    z = lambda s: [0.0 if x != x else x for x in s]
    insol = [ins.get(t, NAN) for t in ix]
    return dict(ix=ix, pi_norm=z(pn), delta=z(delta), ev=ev, run=run, insol=z(insol), renorm=rn, rm=z(rm))


def intervals(d, trim=False, max_relative_slope_error=500.0, max_negative_step=0.05, min_interval_length=7):
    from scipy.stats import theilslopes
    runs = sorted(set(d['run']))
    if trim:
        runs = runs[1:-1]
    out = []
    for r in runs:
        k = [i for i, x in enumerate(d['run']) if x == r]
        use = [i for i in k if d['pi_norm'][i] > 0] or k
        y = [d['pi_norm'][i] for i in use]
        row = dict(run=r, start=d['ix'][k[0]], end=d['ix'][k[-1]], length=k[-1] - k[0], slope=0.0, low=0.0, high=0.0,
                   inf_start=sum(y) / len(y), inf_end=sum(y) / len(y), valid=False, i0=k[0], i1=k[-1])
        step = min(d['delta'][i] for i in use)
        if len(use) > min_interval_length and sum(y) > 0:
            m, c, lo, hi = theilslopes(y, use)
            hi = min(0.0, hi)
            row.update(slope=m, low=lo, high=hi, inf_start=c + m * k[0], inf_end=c + m * k[-1], valid=True)
            err = (hi - lo) / abs(m) if m != 0 else (INF if hi > lo else (NAN if hi == lo else -INF))
            lim = max_relative_slope_error / 100.0
            if near(m, 0, 1e-12) and m != 0 or (err == err and abs(err) != INF and near(err, lim)):
                raise Skip()
            bad = m > 0 or err >= lim
        else:
            bad = False
        if near(step, -max_negative_step, 1e-10):
            raise Skip()
        if bad or step <= -max_negative_step:
            row.update(slope=0.0, low=0.0, high=0.0, valid=False)
        out.append(row)
    v = [r for r in out if r['valid']]
    for r in out:
        r['next_start'] = r['recovery'] = NAN
    for r, nx in zip(v, v[1:] + [None]):
        if nx is not None:
            r['next_start'] = min(max(nx['inf_start'], 0), 1)
            r['recovery'] = min(max(r['next_start'] - r['inf_end'], 0), 1)
    return out
