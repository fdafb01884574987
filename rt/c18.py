from base import *
from rdtools.availability import AvailabilityAnalysis as AA


def plant(g, n=None, ncol=None, messy=True):
    """power of a few subsystems with outages, the meter, the expected power and the cumulative meter"""
    n = n or g.int(24, 150)
    ncol = ncol or g.int(1, 5)
    ix = pd.date_range(g.start(), periods=n, freq=g.choice('15min', '1h', '30min'))
    if ix.tz is not None and g.p(0.3):
        ix = ix.tz_convert('UTC')
    cols = [f'inv{i}' for i in range(ncol)] if g.p(0.5) else list(range(ncol))
    size = [g.choice(1.0, 1.0, 2.0, 0.5, 1.5) for _ in range(ncol)]
    k = g.int(6, 30)
    shape = [max(0.0, math.sin(2 * math.pi * i / k)) * g.choice(1.0, 1.0, 0.9, 0.75) for i in range(n)]
    sub = pd.DataFrame({c: [round(64 * 100 * s * x) / 64 for x in shape] for c, s in zip(cols, size)}, index=ix)
    for c in cols:
        for _ in range(g.int(0, 3)):
            a = g.int(0, n - 1)
            sub.loc[ix[a]:ix[min(n - 1, a + g.int(0, 12))], c] = g.choice(0.0, NAN, 0.015625, -1.0, 0.5, 1.0, 2.0, 5.0)
    for c in cols:        # just below and just above a thousandth of the usual maximum
        for f in (0.9995, 1.0005):
            if g.p(0.4):
                q = quant([0.0 if math.isnan(x) else x for x in sub[c].values], 0.99) / 1000
                if q > 0:
                    sub.loc[ix[g.int(0, n - 1)], c] = q * f
    sysp = sub.fillna(0).sum(axis=1) * g.choice(1.0, 0.98, 0.96875)
    # communications lost: the meter still sees the power
    if messy:
        for _ in range(g.int(0, 3)):
            c = g.choice(cols)
            a = g.int(0, n - 1)
            sl = slice(ix[a], ix[min(n - 1, a + g.int(0, 10))])
            sub.loc[sl, c] = g.choice(0.0, NAN)
        for _ in range(g.int(0, 4)):
            sysp.iloc[g.int(0, n - 1)] = g.choice(NAN, -2.0, 0.0, 1000.0)
    exp = pd.Series([100 * sum(size) * x * 1.25 for x in shape], ix)
    hours = (ix[1] - ix[0]) / pd.Timedelta('1h')
    cum = pd.Series(np.cumsum(np.nan_to_num(sysp.values)) * hours + 500, ix)
    return ix, cols, sub, sysp, cum, exp


def quant(v, q):
    v = sorted(v)
    p = q * (len(v) - 1)
    i = int(math.floor(p))
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (p - i)


def oracle(cols, sub, sysp, thr, sizes, limit):
    """(loss, online) per timestamp; loss None where a comparison is too close to call"""
    n = len(sub)
    P = {c: [0.0 if math.isnan(x) else x for x in sub[c].values] for c in cols}
    if thr is None:
        T = {c: quant(P[c], 0.99) / 1000 for c in cols}
    elif isinstance(thr, pd.Series):
        T = {c: float(thr[c]) for c in cols}
    else:
        T = {c: float(thr) for c in cols}
    on = {c: [x > T[c] for x in P[c]] for c in cols}
    if sizes is None:
        S = {}
        for c in cols:
            r = []
            for i in range(n):
                up = [P[d][i] for d in cols if on[d][i]]
                if on[c][i]:
                    r.append(P[c][i] / (sum(up) / len(up)))
            S[c] = quant(r, 0.5) if r else NAN
    else:
        S = {c: float(sizes[c]) for c in cols}
    tot = sum(S[c] for c in cols if S[c] == S[c])
    out = []
    for i in range(n):
        up = [c for c in cols if on[c][i]]
        down = [c for c in cols if not on[c][i]]
        s = float(sysp.iloc[i])
        s = s if math.isnan(s) else max(0.0, s)
        lim = None if limit is None else float(limit.iloc[i]) if isinstance(limit, pd.Series) else float(limit)
        if math.isnan(s) or not up:
            out.append(0.0)
            continue
        vals = [P[c][i] / S[c] for c in up if S[c] == S[c] and S[c] != 0]
        virtual = sum(vals) / len(vals) * len(cols)
        if virtual == 0:
            out.append(None)
            continue
        delta = 1 - s / virtual
        small = min([S[c] / tot for c in down if S[c] == S[c]], default=1.0)
        if down and abs(delta - 0.75 * small) < 1e-9:
            out.append(None)
            continue
        if not down or delta <= 0.75 * small:
            loss = 0.0
        else:
            f = min(1.0, max(sum(S[c] / tot for c in up), s / virtual))
            loss = (1 - f) / f * s
        if lim is not None:
            if abs(loss + s - lim) < 1e-9:
                loss = min(loss, max(lim - s, 0.0))
            elif loss + s > lim:
                loss = max(lim - s, 0.0)
        out.append(loss)
    return out, on


def options(g, cols, sub, ix):
    thr = g.choice(None, None, 1.0, 5.0, 'S')
    if thr == 'S':
        thr = pd.Series({c: g.choice(0.5, 2.0, 10.0) for c in cols})
    sizes = g.choice(None, None, 'D', 'S')
    if sizes:
        d = {c: g.choice(0.5, 1.0, 1.5, 2.0) for c in cols}
        sizes = d if sizes == 'D' else pd.Series(d)
    limit = g.choice(None, None, 50.0, 150.0, 'S')
    if isinstance(limit, str):
        limit = pd.Series([g.choice(20.0, 100.0, 300.0) for _ in ix], ix)
    return thr, sizes, limit


@check('C18', 80)
def losses(g):
    ix, cols, sub, sysp, cum, exp = plant(g)
    thr, sizes, limit = options(g, cols, sub, ix)
    want, on = oracle(cols, sub, sysp, thr, sizes, limit)
    if sizes is None and any(not any(on[c]) for c in cols):
        raise Skip()    # a subsystem that never reports has no size
    a = must(AA, sysp, sub, cum, exp)
    snap = Snapshot(sysp=sysp, sub=sub, cum=cum, exp=exp, sizes=sizes)
    must(private(AA, '_calc_loss_subsystem'), a, thr, sizes, limit)
    snap.verify('_calc_loss_subsystem')
    got = a.loss_subsystem
    same_labels(got.index, ix, 'loss')
    for i, (x, w) in enumerate(zip(got.values, want)):
        require(x >= 0, f'loss negative or missing at {ix[i]}', loss=x)
        if w is not None:
            require(close(x, w, 1e-8, 1e-9), f'subsystem loss at {ix[i]}: got {x}, contract says {w}', sub=sub.iloc[i],
                    system=sysp.iloc[i], threshold=thr, sizes=sizes, limit=limit if not isinstance(limit, pd.Series) else limit.iloc[i])
    m = a.reporting_mask
    for c in cols:
        require(list(m[c].astype(bool)) == on[c], 'reporting subsystems', column=c)


@check('C18', 8)
def at_the_limit(g):
    """a shortfall of exactly 75% of the smallest offline share is no loss; beyond it is"""
    ncol = g.choice(2, 4)
    n = 8
    ix = pd.date_range('2020-06-01', periods=n, freq='1h')
    P = g.choice(64.0, 128.0)
    sub = pd.DataFrame({c: [P] * n for c in range(ncol)}, index=ix)
    sub.iloc[2:5, 0] = 0.0
    full = P * ncol
    sysp = pd.Series(full, ix)
    edge = full * (1 - 0.75 / ncol)
    sysp.iloc[2:5] = [edge, edge - 1, edge + 1]
    a = must(AA, sysp, sub, sysp.cumsum(), sysp)
    must(private(AA, '_calc_loss_subsystem'), a, 1.0, {c: 1.0 for c in range(ncol)}, None)
    got = list(a.loss_subsystem.values)
    f = (edge - 1) / full
    want = [0.0] * n
    want[3] = (1 - f) / f * (edge - 1)
    for i, (x, w) in enumerate(zip(got, want)):
        require(close(x, w, 1e-9, 1e-9), f'loss at the limit: row {i} got {x}, contract says {w}', system=sysp)


@check('C18', 25)
def through_run(g):
    """the same losses reach the public result"""
    ix, cols, sub, sysp, cum, exp = plant(g, n=g.int(100, 200), messy=g.p(0.3))
    thr, sizes, limit = options(g, cols, sub, ix)
    want, on = oracle(cols, sub, sysp, thr, sizes, limit)
    if sizes is None and any(not any(on[c]) for c in cols):
        raise Skip()
    a = must(AA, sysp, sub, cum, exp)
    st, v, w = attempt(a.run, low_threshold=thr, relative_sizes=sizes, power_system_limit=limit)
    if st != 'ok':
        raise Skip()
    for i, (x, w) in enumerate(zip(a.loss_subsystem.values, want)):
        if w is not None:
            require(close(x, w, 1e-8, 1e-9), f'subsystem loss at {ix[i]}: got {x}, contract says {w}')


@check('C18', 15)
def misaligned(g):
    ix, cols, sub, sysp, cum, exp = plant(g, n=30)
    d = dict(power_system=sysp, power_subsystem=sub, energy_cumulative=cum, power_expected=exp)
    k = g.choice(sorted(d))
    how = g.choice('shift', 'short', 'gap')
    x = d[k].copy()
    if how == 'shift':
        x.index = x.index + pd.Timedelta('1min')
    elif how == 'short':
        x = x.iloc[:-1]
    else:
        x = x.drop(x.index[g.int(1, 28)])
    d[k] = x
    must_raise(ValueError, lambda: AA(**d))
