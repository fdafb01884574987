from srr import *


def opts(g):
    o = {}
    if g.p(0.4):
        o['trim'] = g.choice(True, False)
    if g.p(0.5):
        o['max_relative_slope_error'] = g.choice(500.0, 50.0, 100.0, 5000)
    if g.p(0.5):
        o['max_negative_step'] = g.choice(0.05, 0.01, 0.005, 1.0)
    if g.p(0.5):
        o['min_interval_length'] = g.choice(7, 2, 14, 20)
    return o


@check('C14', 60)
def summary(g):
    pm, ins, precip = inputs(g)
    o, q = options(g), opts(g)
    d = daily(pm, ins, precip, **o)
    want = intervals(d, **q)
    st, r, _ = attempt(entry(g), pm, ins, reps=1, precipitation_daily=precip, method='perfect_clean', **o, **q)
    if not any(w['valid'] for w in want):
        require(st == 'exc' and isinstance(r, SO.NoValidIntervalError), 'no valid interval, but no NoValidIntervalError', got=r)
        return
    if st == 'exc':
        raise Fail(f'unexpected {type(r).__name__}: {r}')
    s = r[2]['soiling_interval_summary']
    require(len(s) == len(want), 'number of intervals', got=len(s), want=len(want))
    T = dict(rtol=1e-7, atol=1e-9)
    same_labels(pd.DatetimeIndex(s['start']), pd.DatetimeIndex([w['start'] for w in want]), 'starts')
    same_labels(pd.DatetimeIndex(s['end']), pd.DatetimeIndex([w['end'] for w in want]), 'ends')
    same_values(s['length'], [w['length'] for w in want], 'lengths')
    require([bool(x) for x in s['valid']] == [w['valid'] for w in want], 'validity', got=list(s['valid']),
            want=[w['valid'] for w in want], summary=s, options=(o, q), pm=pm)
    same_values(s['soiling_rate'], [w['slope'] for w in want], 'soiling rates', **T)
    same_values(s['soiling_rate_low'], [w['low'] for w in want], 'soiling rate low', **T)
    same_values(s['soiling_rate_high'], [w['high'] for w in want], 'soiling rate high', **T)
    same_values(s['inferred_start_loss'], [w['inf_start'] for w in want], 'inferred start', **T)
    same_values(s['inferred_end_loss'], [w['inf_end'] for w in want], 'inferred end', **T)
    # soiling ratio under perfect cleaning in the valid intervals
    sp = r[2]['soiling_ratio_perfect_clean']
    lab, val = [], []
    for w in want:
        if w['valid']:
            for i in range(w['i0'], w['i1'] + 1):
                lab.append(d['ix'][i])
                val.append(1 + (i - w['i0']) * w['slope'])
    same_labels(sp.index, pd.DatetimeIndex(lab), 'perfect-clean profile')
    same_values(sp.values, val, 'perfect-clean profile', **T)


@check('C14', 40)
def default_limits(g):
    """intervals whose largest negative step lies close to the default limit of 0.05, and whose slope error lies close to 500 %"""
    n = 90
    ix = pd.date_range('2021-03-01', periods=n, freq='D')
    v = 1 - 0.001 * np.arange(n) + np.array([g.dyadic(-1, 1, 512) for _ in range(n)]) * g.choice(0.0005, 0.003, 0.01, 0.02, 0.02, 0.03)
    k = g.int(20, 70)
    if g.p(0.6):
        v[k:] -= g.choice(0.046, 0.049, 0.0505, 0.052, 0.055, 0.056)
    precip = pd.Series(0.0, ix)
    for j in g.choice([30], [25, 60], [20, 45, 70], []):
        precip.iloc[j] = 1.0
    pm, ins = pd.Series(v, ix), pd.Series(1000.0, ix)
    o = dict(clean_criterion='precip', recenter=False, day_scale=1)
    want = intervals(daily(pm, ins, precip, **o))
    st, r, _ = attempt(entry(g), pm, ins, reps=1, precipitation_daily=precip, method='perfect_clean', **o)
    if not any(w['valid'] for w in want):
        require(st == 'exc' and isinstance(r, SO.NoValidIntervalError), 'no valid interval, but no NoValidIntervalError', got=r)
        return
    if st == 'exc':
        raise Fail(f'unexpected {type(r).__name__}: {r}')
    s = r[2]['soiling_interval_summary']
    require([bool(x) for x in s['valid']] == [w['valid'] for w in want], 'validity', got=list(s['valid']),
            want=[w['valid'] for w in want], summary=s, pm=pm)


@check('C14', 40)
def analysed(g):
    pm, ins, precip = inputs(g)
    o, q = options(g), opts(g)
    d = daily(pm, ins, precip, **o)
    want = intervals(d, **q)
    if not any(w['valid'] for w in want):
        raise Skip()
    a = must(SO.SRRAnalysis, pm, ins, precip)
    must(private(a, '_calc_daily_df'), **o)
    must(private(a, '_calc_result_df'), **q)
    df, rs = getattr(a, 'analyzed_daily_df', None), getattr(a, 'result_df', None)
    if df is None or rs is None or 'loss_inferred_clean' not in df or 'inferred_recovery' not in rs:
        raise Skip()
    T = dict(rtol=1e-7, atol=1e-9)
    lab, pc, ic = [], [], []
    for w in want:
        for i in range(w['i0'], w['i1'] + 1):
            lab.append(d['ix'][i])
            pc.append(1 + (i - w['i0']) * w['slope'])
            ic.append(w['inf_start'] + (i - w['i0']) * w['slope'])
    same_labels(df.index, pd.DatetimeIndex(lab), 'analysed days')
    same_values(df['loss_perfect_clean'], pc, 'perfect-clean loss', **T)
    same_values(df['loss_inferred_clean'], ic, 'inferred-clean loss', **T)
    same_values(rs['inferred_recovery'], [w['recovery'] for w in want], 'inferred recovery', **T)
    same_values(rs['next_inferred_start_loss'], [w['next_start'] for w in want], 'next inferred start', **T)
