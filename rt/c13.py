from srr import *


@check('C13', 60)
def table(g):
    pm, ins, precip = inputs(g)
    o = options(g)
    pr = precip if g.p(0.8) else None
    d = daily(pm, ins, pr, **o)
    snap = Snapshot(pm=pm, ins=ins, precip=precip)
    a = must(SO.SRRAnalysis, pm, ins, pr)
    must(private(a, '_calc_daily_df'), **o)
    snap.verify('_calc_daily_df')
    df = getattr(a, 'daily_df', None)
    if df is None or not {'pi_norm', 'clean_event', 'run', 'delta', 'day', 'insol'} <= set(df.columns):
        raise Skip()
    same_labels(df.index, d['ix'], 'daily table')
    same_values(df['pi_norm'], d['pi_norm'], 'normalized performance')
    same_values(df['insol'], d['insol'], 'insolation')
    same_values(df['delta'], d['delta'], 'shift of the rolling median', atol=1e-9)
    same_values(df['day'], range(len(d['ix'])), 'day number')
    require(close(a.renorm_factor, d['renorm']), 'renormalizing factor', got=a.renorm_factor, want=d['renorm'])
    for i, (x, y) in enumerate(zip(df['clean_event'], d['ev'])):
        require(bool(x) == bool(y), f'cleaning event on {d["ix"][i]}', got=x, want=y, options=o, pm=pm)
    same_values(df['run'], d['run'], 'interval number')


@check('C13', 40)
def partition(g):
    """the public result: consecutive intervals start exactly at the cleaning events"""
    pm, ins, precip = inputs(g)
    o = options(g)
    mo = dict(max_relative_slope_error=5000, max_negative_step=1.0, min_interval_length=2)
    d = daily(pm, ins, precip, **o)
    st, r, _ = attempt(entry(g), pm, ins, reps=1, precipitation_daily=precip, method='perfect_clean', **mo, **o)
    if st == 'exc':
        require(isinstance(r, SO.NoValidIntervalError), 'unexpected exception', got=r)
        raise Skip()
    s = r[2]['soiling_interval_summary']
    runs = sorted(set(d['run']))
    first = [d['run'].index(k) for k in runs]
    last = [b - 1 for b in first[1:]] + [len(d['ix']) - 1]
    same_labels(pd.DatetimeIndex(s['start']), d['ix'][first], 'interval starts', options=o, pm=pm)
    same_labels(pd.DatetimeIndex(s['end']), d['ix'][last], 'interval ends', options=o, pm=pm)
    for k, p in enumerate(r[2]['stochastic_soiling_profiles']):
        same_labels(p.index, d['ix'], 'profile days')


@check('C13', 15)
def rejected(g):
    pm, ins, precip = inputs(g, 80, clean=True)
    k = g.int(2, 60)
    hole = lambda s: s.drop(s.index[[k, k + 3]])
    must_raise(ValueError, SO.SRRAnalysis, hole(pm), ins, precip)
    must_raise(ValueError, SO.SRRAnalysis, pm, hole(ins), precip)
    must_raise(ValueError, SO.SRRAnalysis, pm, ins, hole(precip))
    must_raise(ValueError, SO.SRRAnalysis, pm.iloc[::2], ins)
    must_raise(ValueError, SO.soiling_srr, pm, ins, reps=1, precipitation_daily=precip,
               clean_criterion=g.choice('none', 'shift_and_precip', 'Shift'))
