from base import *
from rdtools.soiling import annual_soiling_ratios as ASR, monthly_soiling_rates as MSR
import rdtools.soiling as SO


@check('C16', 60)
def annual(g):
    n = g.int(20, 900)
    tz = g.choice(None, 'UTC', 'Etc/GMT+7')
    ix = pd.date_range(pd.Timestamp(g.choice('2019-01-01', '2018-12-20', '2020-02-28'), tz=tz), periods=n, freq='D')
    k = g.int(1, 7)
    ps = []
    for _ in range(k):
        v = 1 - g.np.randint(0, 64, n) / 256
        if g.p(0.2):
            v[g.int(0, n - 1)] = NAN
        ps.append(pd.Series(v, ix, name='stochastic_soiling_profile'))
    lo = g.choice(0, 0, 5)
    jx = pd.date_range(ix[0] - pd.Timedelta(days=lo), ix[-1] + pd.Timedelta(days=lo), freq='D')
    ins = pd.Series(g.values(len(jx), 100, 9000, nan=g.choice(0, 0, 0.05), special=(0.0,)), jx, name=g.name())
    kw = {}
    c = 68.2
    if g.p(0.5):
        c = kw['confidence_level'] = g.choice(95, 50, 0, 100)
    snap = Snapshot(ins=ins, ps=ps)
    out = must(ASR, ps, ins, **kw)
    snap.verify('annual_soiling_ratios')
    ok = [all(p.values[i] == p.values[i] for p in ps) for i in range(n)]
    years = sorted({t.year for i, t in enumerate(ix) if ok[i]})
    require(list(out['year']) == years, 'every year once', got=list(out['year']), want=years)
    for r, y in zip(out.to_dict('records'), years):
        rs = []
        for p in ps:
            a = b = 0.0
            for i, t in enumerate(ix):
                w = ins.get(t)
                if ok[i] and t.year == y and w == w:
                    a += w * p.values[i]
                    b += w
            rs.append(a / b if b else NAN)
        if any(x != x for x in rs):
            continue
        for col, q in (('soiling_ratio_median', 0.5), ('soiling_ratio_low', 0.5 - c / 200), ('soiling_ratio_high', 0.5 + c / 200)):
            require(close(r[col], np.quantile(rs, q)), f'{col} of {y}', got=r[col], want=np.quantile(rs, q))
        require(r['soiling_ratio_low'] <= r['soiling_ratio_median'] + 1e-12 <= r['soiling_ratio_high'] + 2e-12, 'order', got=r)


def table(g, fixed):
    m = g.int(0, 12)
    rows = []
    t = pd.Timestamp(g.choice('2019-01-01', '2018-11-20', '2020-01-30'), tz=g.choice(None, 'UTC'))
    for i in range(m):
        L = g.choice(5, 13, 14, 15, 30, 60, 120, 400)
        rate = -g.int(1, 400) / 2**16
        w = 0.0 if fixed else abs(rate) * g.choice(0.5, 1.0, 4.0, 5.0, 5.5)
        rows.append(dict(start=t, end=t + pd.Timedelta(days=L), soiling_rate=rate, soiling_rate_low=rate - w,
                         soiling_rate_high=min(0.0, rate + g.choice(0, 1) * 0.0), inferred_start_loss=1.0, inferred_end_loss=0.9, length=L,
                         valid=not g.p(0.25)))
        t = t + pd.Timedelta(days=L + g.choice(1, 1, 30))
    cols = ['start', 'end', 'soiling_rate', 'soiling_rate_low', 'soiling_rate_high', 'inferred_start_loss', 'inferred_end_loss',
            'length', 'valid']
    df = pd.DataFrame(rows, columns=cols)
    if not m:
        df['valid'] = df['valid'].astype(bool)
    return df


def used(df, minlen, maxerr):
    out = []
    for r in df.to_dict('records'):
        err = 100 * abs((r['soiling_rate_high'] - r['soiling_rate_low']) / r['soiling_rate'])
        if 0 < abs(err - maxerr) < 1e-6:
            raise Skip()
        if r['length'] >= minlen and r['valid'] and err <= maxerr:
            days = [0] * 13
            t = r['start']
            while t <= r['end']:
                days[t.month] += 1
                t += pd.Timedelta(days=1)
            out.append((r, days))
    return out


@check('C16', 80)
def monthly(g):
    fixed = g.p(0.6)
    df = table(g, fixed)
    if df.empty:
        raise Skip()
    kw = {}
    minlen, maxerr, c = 14, 500.0, 68.2
    if g.p(0.5):
        minlen = kw['min_interval_length'] = g.choice(14, 5, 30, 0)
    if g.p(0.4):
        maxerr = kw['max_relative_slope_error'] = g.choice(100.5, 450.0, 1000)
    if g.p(0.5):
        c = kw['confidence_level'] = g.choice(95, 50, 100)
    reps = kw['reps'] = g.choice(1000, 2000, 777)
    np.random.seed(g.int(0, 10**6))
    snap = Snapshot(df=df)
    u = used(df, minlen, maxerr)
    out = must(MSR, df, **kw)
    snap.verify('monthly_soiling_rates')
    require(list(out['month']) == list(range(1, 13)), 'every month once', got=list(out['month']))
    for r in out.to_dict('records'):
        m = r['month']
        tot = sum(d[m] for _, d in u)
        k = [(x, d[m]) for x, d in u if d[m] > 0]
        require(r['interval_count'] == len(k), f'intervals of month {m}', got=r['interval_count'], want=len(k))
        vals = [r['soiling_rate_median'], r['soiling_rate_low'], r['soiling_rate_high']]
        if not k:
            require(all(v != v for v in vals), f'month {m} has no interval', got=vals)
            continue
        require(vals[1] <= vals[0] + 1e-15 and vals[0] <= vals[2] + 1e-15, 'order of the bounds', got=vals)
        require(vals[1] >= min(x['soiling_rate_low'] for x, _ in k) - 1e-12 and
                vals[2] <= max(x['soiling_rate_high'] for x, _ in k) + 1e-12, 'outside the rates of the intervals', got=vals)
        if fixed:
            sample = []
            for x, dd in k:
                sample += [x['soiling_rate']] * int(math.ceil(dd / tot * reps - 1e-9))
            sample.sort()
            for v, q in zip(vals, (0.5, 0.5 - c / 200, 0.5 + c / 200)):
                # one sample more or less per interval is rounding
                p = q * (len(sample) - 1)
                lo = sample[max(0, int(p) - len(k) - 1)]
                hi = sample[min(len(sample) - 1, int(p) + len(k) + 2)]
                require(lo - 1e-15 <= v <= hi + 1e-15, f'month {m} quantile {q}', got=v, want=(lo, hi), weights=[(x['soiling_rate'], d) for x, d in k])
        elif len(k) == 1:
            x = k[0][0]
            a, b = x['soiling_rate_low'], x['soiling_rate_high']
            for v, q in zip(vals, (0.5, 0.5 - c / 200, 0.5 + c / 200)):
                sd = (b - a) * math.sqrt(q * (1 - q) / reps) if 0 < q < 1 else (b - a) * 20 / reps
                require(abs(v - (a + q * (b - a))) <= 7 * sd + 1e-12, f'month {m}: not the quantile {q} of uniform rates', got=v,
                        bounds=(a, b))


@check('C16', 30)
def month_days(g):
    f = private(SO, '_count_month_days')
    a = pd.Timestamp('2019-01-01', tz=g.choice(None, 'UTC')) + pd.Timedelta(days=g.int(0, 800))
    n = g.int(0, 800)
    b = a + pd.Timedelta(days=n)
    want = {m: 0 for m in range(1, 13)}
    for i in range(n + 1):
        want[(a + pd.Timedelta(days=i)).month] += 1
    got = must(f, a, b)
    require(dict(got) == want, 'days per month', got=got, want=want)
