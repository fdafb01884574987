from base import *
import rdtools
from rdtools.availability import AvailabilityAnalysis as AA
from c18 import plant, quant


def record(g):
    """a plant with full outages: real, communications only, meter restarts, at the ends of the record and over nights"""
    n = g.int(90, 260)
    step = g.choice('1h', '30min', '15min')
    start = g.start(g.choice('UTC', None, 'Etc/GMT+7'))
    start = start.normalize() + pd.Timedelta(hours=g.choice(0, 0, 8, 12, 23))
    ix = pd.date_range(start, periods=n, freq=step)
    k = g.choice(8, 12, 24)
    ncol = g.int(1, 3)
    noise = [g.choice(1.0, 1.0, 0.9, 1.05, 0.8) for _ in range(n)]
    shape = [max(0.0, round(64 * math.sin(2 * math.pi * i / k)) / 64) for i in range(n)]
    if g.p(0.5):      # dawn and dusk: very little light
        shape = [0.00390625 if x == 0 and (a > 0 or b > 0) else x for x, a, b in zip(shape, shape[1:] + [0.0], [0.0] + shape)]
    exp = pd.Series([100 * ncol * x for x in shape], ix) * g.choice(1.0, 1.25, 0.5)
    sub = pd.DataFrame({f'i{c}': [100 * x * y for x, y in zip(shape, noise)] for c in range(ncol)}, index=ix)
    sysp = sub.sum(axis=1)
    hours = (ix[1] - ix[0]) / pd.Timedelta('1h')
    made = [x * hours for x in sysp.values]
    cumv = None
    reset = []
    for _ in range(g.int(0, 4)):
        a = g.choice(0, g.int(1, n - 2), g.int(1, n - 2), g.int(1, n - 2))
        b = min(n - 1, a + g.choice(0, 1, 3, 8, 20, n if g.p(0.2) else 5))
        if b - a > n // 3:
            a, b = n - g.int(2, 20), n - 1
        kind = g.choice('real', 'comms', 'half', 'reset', 'net')
        sub.iloc[a:b + 1] = g.choice(0.0, NAN)
        sysp.iloc[a:b + 1] = 0.0 if kind != 'comms' or g.p(0.5) else NAN
        for i in range(a, b + 1):
            if kind == 'real' or kind == 'half' and i > (a + b) // 2:
                made[i] = 0.0
        if kind == 'net':         # the system consumes: the meter falls a little
            fr = g.choice(0.01, 0.03, 0.045, 0.053, 0.055, 0.07)
            for i in range(a, b + 1):
                made[i] *= -fr
        if kind == 'reset':
            reset.append(g.int(a, b))
    for _ in range(g.choice(0, 0, 1, 3)):      # subsystem outages too
        a, w = g.int(0, n - 1), g.int(1, 6)
        if ncol > 1:
            for i in range(a, min(n, a + w)):
                if sub.iloc[i, 0] > 0 and sysp.iloc[i] > sub.iloc[i, 0]:
                    sysp.iloc[i] -= sub.iloc[i, 0]
                    made[i] = sysp.iloc[i] * hours
        sub.iloc[a:a + w, 0] = g.choice(0.0, 0.0, NAN)
    cum, e = [], 1000.0
    for i in range(n):
        e += made[i]
        if i in reset:
            e = 0.0
        cum.append(e)
    return ix, sub, sysp, pd.Series(cum, ix), exp


def bins(ix, period):
    if period in (None, 'ME', 'MS'):
        return [(t.year, t.month) for t in ix]
    return [(t.year, t.month, t.day) for t in ix]


@check('C19', 70)
def availability(g):
    ix, sub, sysp, cum, exp = record(g)
    n = len(ix)
    period = g.choice(None, None, 'ME', 'D', 'MS')
    quantiles = g.choice(None, None, (0.01, 0.99), (0.2, 0.9), (0.5, 0.5))
    kw = {}
    if period:
        kw['rollup_period'] = period
    if quantiles:
        kw['quantiles'] = quantiles
    q = quantiles or (0.01, 0.99)
    snap = Snapshot(sysp=sysp, sub=sub, cum=cum, exp=exp)
    a = must(AA, sysp, sub, cum, exp)
    normal_ok = sum(1 for s, e in zip(sysp.values, exp.values) if s > 0 and e > 0)
    if normal_ok < 12:
        raise Skip()
    must(a.run, **kw)
    snap.verify('AvailabilityAnalysis.run')
    lsub = a.loss_subsystem
    # expected power rescaled to the meter where the system performs normally
    normal = [bool(l == 0) and s > 0 and e > 0 for l, s, e in zip(lsub.values, sysp.values, exp.values)]
    if sum(normal) < 4:
        raise Skip()
    fac = sum(e for e, m in zip(exp.values, normal) if m) / sum(s for s, m in zip(sysp.values, normal) if m)
    rescaled = exp / fac
    same_values(a.power_expected_rescaled.values, rescaled.values, 'rescaled expected power', 1e-8)
    E = rdtools.energy_from_power(rescaled).reindex(ix)
    M = rdtools.energy_from_power(sysp).reindex(ix)
    same_values(a.energy_expected_rescaled.reindex(ix).values, E.values, 'rescaled expected energy', 1e-8)
    rows = [i for i in range(n) if normal[i]]
    lows, ups, ws = [], [], []
    w = 2
    while w <= 2 ** (int(math.log2(len(rows))) - 1):
        err = []
        for s in range(len(rows) - w + 1):
            r = rows[s:s + w]
            act, ex = sum(M.iloc[i] for i in r), sum(E.iloc[i] for i in r)
            if not math.isnan(act) and not math.isnan(ex):
                err.append(act / ex - 1)
        if not err:
            raise Skip()
        ws.append(w)
        lows.append(quant(err, q[0]))
        ups.append(quant(err, q[1]))
        w *= 2
    # full outages
    thr = [quant([0.0 if math.isnan(x) else x for x in sub[c].values], 0.99) / 1000 for c in sub.columns]
    off = [not any(sub[c].iloc[i] > t for c, t in zip(sub.columns, thr)) for i in range(n)]
    day = [e > 0 for e in exp.values]
    full = []
    for i in range(n):
        prev = next((off[j] for j in range(i, -1, -1) if day[j]), False)
        nxt = next((off[j] for j in range(i, n) if day[j]), False)
        full.append(prev or nxt)
    runs, i = [], 0
    while i < n:
        if full[i]:
            j = i
            while j + 1 < n and full[j + 1]:
                j += 1
            runs.append((i, j))
            i = j + 1
        else:
            i += 1
    if runs == [(0, n - 1)]:
        raise Skip()
    o = a.outage_info
    require(len(o) == len(runs), 'number of outages', got=o[['start', 'end']], want=[(ix[x], ix[y]) for x, y in runs])
    losses = pd.Series(0.0, ix)
    corrected = cum.copy()
    Eraw = rdtools.energy_from_power(exp).reindex(ix)
    for k, (x, y) in enumerate(runs):
        r = o.iloc[k]
        nd = sum(day[x:y + 1])
        ee = float(E.iloc[x:y + 1].sum())
        es, en = float(cum.iloc[max(x - 1, 0)]), float(cum.iloc[y])
        ea = en - es
        el, eu = float(np.interp(nd, ws, lows)), float(np.interp(nd, ws, ups))
        D = dict(outage=r, run=(ix[x], ix[y]))
        require(r['start'] == ix[x] and r['end'] == ix[y] and r['duration'] == ix[y] - ix[x], 'outage start/end', **D)
        require(r['intervals'] == y - x + 1 and r['daylight_intervals'] == nd, 'outage interval counts', **D)
        for name, want in (('error_lower', el), ('error_upper', eu), ('energy_expected', ee), ('energy_start', es),
                           ('energy_end', en), ('ci_lower', (1 + el) * ee), ('ci_upper', (1 + eu) * ee)):
            require(close(r[name], want, 1e-7, 1e-7), f'outage {name}: got {r[name]}, contract says {want}', **D)
        if abs(ea + 0.05 * ee) < 1e-6 or abs(ea - (1 + el) * ee) < 1e-6:
            raise Skip()
        if ea < -0.05 * ee:
            ea, typ, loss = NAN, 'unknown', NAN
        elif ea < (1 + el) * ee:
            typ, loss = 'real', ee - ea
        else:
            typ, loss = 'comms', 0.0
        require(r['type'] == typ, f'outage type {r["type"]}, contract says {typ}', **D)
        require(close(r['energy_actual'], ea, 1e-7, 1e-7), 'outage energy_actual', want=ea, **D)
        require(close(r['loss'], loss, 1e-7, 1e-7), 'outage loss', want=loss, **D)
        if loss == loss and el <= 0:
            require(r['loss'] >= -1e-7, 'negative outage loss', **D)
        tot = float(Eraw.iloc[x:y + 1].sum())
        if tot == 0:
            raise Skip()
        losses.iloc[x:y + 1] += exp.iloc[x:y + 1] * loss / tot
        corrected.iloc[x:y + 1] = es + Eraw.iloc[x:y + 1].cumsum() * ea / tot
        if loss == loss and x > 0:
            got = float((a.loss_system.iloc[x:y + 1] * ((ix[1] - ix[0]) / pd.Timedelta('1h'))).sum())
            require(close(got, loss, 1e-7, 1e-7), "loss time series does not add up to the outage's loss", got=got, want=loss, **D)
    same_values(a.loss_system.values, losses.values, 'loss_system', 1e-7, 1e-7)
    same_values(a.energy_cumulative_corrected.values, corrected.values, 'corrected cumulative energy', 1e-7, 1e-7)
    total = losses + lsub
    same_values(a.loss_total.values, total.values, 'loss_total', 1e-7, 1e-7)
    # roll-up
    lost = rdtools.energy_from_power(total)
    groups = {}
    for t, b in zip(ix, bins(ix, period)):
        groups.setdefault(b, []).append(t)
    res = a.results
    require(len(res) == len(groups), 'number of reporting periods', got=res, want=list(groups))
    for (b, ts), (lab, r) in zip(groups.items(), res.iterrows()):
        inside = [t for t in ts if t in lost.index]
        L = sum(x for x in (lost[t] for t in inside) if not math.isnan(x)) if inside else NAN
        cv = [x for x in (corrected[t] for t in ts) if not math.isnan(x)]
        A = cv[-1] - cv[0] if cv else NAN
        require((lab.year, lab.month) == b[:2] and (len(b) == 2 or lab.day == b[2]), 'period label', got=lab, want=b)
        require(close(r['lost_production'], L, 1e-7, 1e-7), 'lost production', period=b, got=r['lost_production'], want=L)
        require(close(r['actual_production'], A, 1e-7, 1e-7), 'actual production', period=b, got=r['actual_production'], want=A)
        if L + A > 1e-6:
            require(close(r['availability'], 1 - L / (L + A), 1e-7, 1e-7), 'availability', got=r['availability'],
                    want=1 - L / (L + A), lost=L, actual=A)
            if L >= 0 and A >= 0:
                require(-1e-9 <= r['availability'] <= 1 + 1e-9, 'availability outside [0, 1]', got=r['availability'])
