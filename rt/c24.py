from base import *
import io, contextlib
import pvlib
import rdtools
from rdtools import normalization as N, filtering as F, aggregation as A, degradation as D, soiling as SO, utilities as U
from rdtools import TrendAnalysis, availability as AV, clearsky_temperature as CT, bootstrap as BS
import c18, c20, c23
LOC = pvlib.location.Location(40.0, -105.25)


def call(what, f, *a, **k):
    """run f; whatever happens, the arguments are as before"""
    snap = Snapshot(**{f'arg{i}': x for i, x in enumerate(a)}, **k)
    with contextlib.redirect_stdout(io.StringIO()):
        st, v, _ = attempt(f, *a, **k)
    snap.verify(what)
    return st, v


def hourly(g, nan=0.1, n=None, name=None):
    n = n or g.int(12, 80)
    ix = pd.date_range(g.start(), periods=n, freq=g.choice('15min', '1h'))
    if g.p(0.4):
        ix.name = g.choice('dt', 'time', 'index')
    return pd.Series(g.values(n, 0, 1000, nan=nan, special=(0.0,)), ix, name=g.name() if name is None else name)


def like(g, s, lo=0, hi=1000, nan=0.1):
    return pd.Series(g.values(len(s), lo, hi, nan=nan), s.index, name=g.name())


@check('C24', 60)
def normalization(g):
    s = hourly(g)
    which = g.int(0, 9)
    if which == 0:
        call('interpolate', N.interpolate, s, g.choice(s.index[1:-1] + pd.Timedelta('7min'), '20min'), g.choice(None, pd.Timedelta('2h')))
    elif which == 1:
        call('interpolate frame', N.interpolate, pd.DataFrame({'a': s, 'b': like(g, s)}), s.index + pd.Timedelta('5min'))
    elif which == 2:
        call('energy_from_power', N.energy_from_power, s, g.choice('1h', None, '30min'), power_type=g.choice('right_labeled', 'instantaneous'))
    elif which == 3:
        call('normalize_with_expected_power', N.normalize_with_expected_power, s, like(g, s), like(g, s), pv_input=g.choice('power', 'energy'))
    elif which == 4:
        kws = dict(poa_global=like(g, s), power_dc_rated=5.0, temperature_cell=like(g, s, 0, 50), poa_global_ref=1000,
                   temperature_cell_ref=25, gamma_pdc=-0.003)
        call('normalize_with_pvwatts', N.normalize_with_pvwatts, s, kws)
    elif which == 5:
        call('pvwatts_dc_power', N.pvwatts_dc_power, s, 5.0, like(g, s, 0, 50), 1000, 25, -0.003)
    elif which == 6:
        m = like(g, s, 300, 1000, nan=0.05)
        call('irradiance_rescale', N.irradiance_rescale, m * g.choice(0.9, 1.1), m, method=g.choice('iterative', 'single_opt'))
    elif which == 7:
        call('check_series_frequency', private(N, 'check_series_frequency'), s, 'x')
    elif which == 8:
        call('t_step_nanoseconds', private(N, '_t_step_nanoseconds'), s)
    else:
        call('delta_index', private(N, '_delta_index'), s)


@check('C24', 60)
def filters(g):
    s = hourly(g)
    o = like(g, s)
    which = g.choice('normalized_filter', 'poa_filter', 'tcell_filter', 'csi_filter', 'insolation_filter', 'quantile_clip_filter',
                     'hour_angle_filter', 'two_way', 'hampel', 'tukey', 'clearsky', 'pvlib', 'logic', 'xgb', 'rq', 'rmed', 'rmean', 'agg')
    if which in ('normalized_filter', 'poa_filter', 'tcell_filter', 'insolation_filter', 'quantile_clip_filter'):
        call(which, getattr(F, which), s)
    elif which == 'csi_filter':
        call(which, F.csi_filter, s, o)
    elif which == 'hour_angle_filter':
        if s.index.tz is None:
            s = s.tz_localize('UTC')
        call(which, F.hour_angle_filter, s, 40.0, -105.0)
    elif which in ('two_way', 'hampel', 'tukey'):
        d = pd.Series(g.values(60, 0.5, 1.5, nan=0.1), pd.date_range('2020-01-01', periods=60, freq='D'), name=g.name())
        call(which, dict(two_way=F.two_way_window_filter, hampel=F.hampel_filter, tukey=F.directional_tukey_filter)[which], d)
    elif which == 'clearsky':
        call(which, F.clearsky_filter, s, o, model='csi')
    elif which == 'pvlib':
        call(which, F.clearsky_filter, s, o, model='pvlib', window_length=90)
    elif which in ('logic', 'xgb'):
        import c06
        p, m = c06.signal(g)
        call(which, F.logic_clip_filter if which == 'logic' else F.xgboost_clip_filter, p)
    elif which == 'agg':
        call(which, A.aggregation_insol, s, o, g.choice('D', '2h'))
    else:
        call(which, dict(rq=U.robust_quantile, rmed=U.robust_median, rmean=U.robust_mean)[which], s, *([0.5] if which == 'rq' else []))


@check('C24', 24)
def degradation(g):
    n = g.int(740, 800)
    ix = pd.date_range(g.start().normalize(), periods=n, freq='D')
    if g.p(0.5):
        ix.name = g.choice('time', 'dt')
    s = pd.Series([1 - 0.00003 * i + g.dyadic(-0.05, 0.05, 256) for i in range(n)], ix, name=g.choice(None, 'energy', 'x'))
    w = g.choice('ols', 'cd', 'yoy', 'yoyshuf', 'boot', 'mk')
    if w in ('yoy', 'ols') and g.p(0.5):
        s[[g.p(0.1) for _ in range(n)]] = NAN
    if w == 'ols':
        call(w, D.degradation_ols, s)
    elif w == 'cd':
        call(w, D.degradation_classical_decomposition, s)
    elif w == 'yoy':
        call(w, D.degradation_year_on_year, s, recenter=g.p(0.5), uncertainty_method=g.choice('simple', None))
    elif w == 'yoyshuf':
        o = list(range(n))
        g.r.shuffle(o)
        call(w, D.degradation_year_on_year, s.iloc[o], uncertainty_method=None)
    elif w == 'boot':
        call(w, private(BS, '_make_time_series_bootstrap_samples'), s, s * 0 + 1, sample_nr=3, block_length=30)
    else:
        call(w, private(D, '_mk_test'), s)


@check('C24', 16)
def soiling(g):
    n = g.int(150, 400)
    ix = pd.date_range('2019-01-01', periods=n, freq='D', tz=g.choice(None, 'UTC'))
    per = g.int(20, 45)
    pm = pd.Series([1 - 0.002 * (i % per) + g.dyadic(-1, 1, 512) * 0.002 for i in range(n)], ix, name=g.name())
    ins = pd.Series(g.values(n, 1000, 2000, nan=0), ix, name=g.name())
    pr = pd.Series([1.0 if i % per == 0 else 0.0 for i in range(n)], ix, name=g.name())
    if g.p(0.5):
        pm[[g.p(0.03) for _ in range(n)]] = NAN
    st, r = call('soiling_srr', SO.soiling_srr, pm, ins, reps=4, precipitation_daily=g.choice(None, pr),
                 clean_criterion=g.choice('shift', 'precip_or_shift'), method=g.choice('half_norm_clean', 'random_clean', 'perfect_clean'))
    if st == 'ok':
        info = r[2]
        call('annual_soiling_ratios', SO.annual_soiling_ratios, info['stochastic_soiling_profiles'], ins)
        call('monthly_soiling_rates', SO.monthly_soiling_rates, info['soiling_interval_summary'], reps=50)


@check('C24', 2, 8)
def cods(g):
    n = g.int(740, 760)
    ix = pd.date_range('2019-01-01', periods=n, freq='D', tz='UTC')
    pm = pd.Series([1 - 0.002 * (i % 40) + g.dyadic(-1, 1, 512) * 0.005 for i in range(n)], ix, name='pm')
    if g.p(0.5):
        pm.iloc[g.int(10, 700)] = NAN
    snap = Snapshot(pm=pm)
    with contextlib.redirect_stdout(io.StringIO()):
        st, c, _ = attempt(SO.CODSAnalysis, pm)
        if st == 'ok':
            attempt(c.iterative_signal_decomposition, max_iterations=2)
    snap.verify('CODSAnalysis')


@check('C24', 12)
def availability(g):
    ix, cols, sub, sysp, cum, exp = c18.plant(g, n=g.int(100, 160), messy=g.p(0.5))
    thr, sizes, limit = c18.options(g, cols, sub, ix)
    snap = Snapshot(sub=sub, sysp=sysp, cum=cum, exp=exp, thr=thr, sizes=sizes, limit=limit)
    a = must(AV.AvailabilityAnalysis, sysp, sub, cum, exp)
    attempt(a.run, low_threshold=thr, relative_sizes=sizes, power_system_limit=limit)
    snap.verify('AvailabilityAnalysis')


@check('C24', 16)
def trend(g):
    ix, pv, poa, tc, cs, tcs = c20.inputs(g, n=g.int(40, 120))
    wind = g.choice(0, pd.Series(2.0, ix))
    exp = g.choice(None, poa * 0.005)
    has_a, ah = c20.adhoc(g, ix)
    p = c20.point_params(g, 'clearsky', None)
    if has_a:
        p['ad_hoc_filter'] = ah
    q = {'two_way_window_filter': {}, 'ad_hoc_filter': None}
    model = g.choice(None, dict(a=-3.4, b=-0.05, deltaT=3))
    az = g.choice(180, pd.Series(180.0, ix))
    D_ = dict(pv=pv, poa=poa, tc=tc, cs=cs, tcs=tcs, wind=wind, exp=exp, adhoc=ah, filters={k: v for k, v in p.items() if k != 'ad_hoc_filter'},
              order=list(p), agg={k: v for k, v in q.items()}, model=model, az=az)
    kwa, kwb, kws = dict(recenter=True), dict(reps=2), ['yoy_degradation', 'srr_soiling']
    snap = Snapshot(**D_, kwa=kwa, kwb=kwb, kws=kws)
    with contextlib.redirect_stdout(io.StringIO()):
        ta = must(TrendAnalysis, pv, poa_global=poa, gamma_pdc=-0.003, windspeed=wind, power_expected=exp, temperature_model=model,
                  interp_freq=g.choice(None, '15min'), **g.choice(dict(temperature_cell=tc), dict(temperature_ambient=tc)))
        must(ta.set_clearsky, pvlib_location=LOC, pv_tilt=30, pv_azimuth=az, poa_global_clearsky=cs,
             **g.choice(dict(temperature_cell_clearsky=tcs), dict(temperature_ambient_clearsky=tcs)))
        ta.filter_params = p
        ta.filter_params_aggregated = q
        for f in (ta.sensor_analysis, ta.clearsky_analysis):
            attempt(f, analyses=kws, yoy_kwargs=kwa, srr_kwargs=kwb)
    snap.verify('TrendAnalysis')
    require(list(p) == D_['order'], 'caller filter dictionary changed', got=list(p), want=D_['order'])


@check('C24', 8)
def plots(g):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    PL = rdtools.plotting
    w = g.choice('deg', 'soil', 'avail', 'tune')
    try:
        if w == 'deg':
            n = g.int(800, 1200)
            ix = pd.date_range('2018-01-01', periods=n, freq='D', tz='UTC')
            s = pd.Series([1 - 0.00003 * i + g.dyadic(-0.05, 0.05, 256) for i in range(n)], ix, name=g.choice(None, 'x'))
            rd, ci, info = D.degradation_year_on_year(s)
            if g.p(0.5):
                s.iloc[5] = NAN
            call(w, PL.degradation_summary_plots, rd, ci, info, s, detailed=g.p(0.5))
            call(w, PL.degradation_timeseries_plot, info, rolling_days=g.choice(60, 365))
        elif w == 'soil':
            n = 200
            ix = pd.date_range('2019-01-01', periods=n, freq='D')
            pm = pd.Series([1 - 0.002 * (i % 40) + g.dyadic(-1, 1, 512) * 0.002 for i in range(n)], ix)
            ins = pd.Series(1000.0, ix)
            st, r, _ = attempt(SO.soiling_srr, pm, ins, reps=4)
            if st != 'ok':
                raise Skip()
            info = r[2]
            call(w, PL.soiling_monte_carlo_plot, info, pm)
            call(w, PL.soiling_interval_plot, info, pm)
            call(w, PL.soiling_rate_histogram, info)
        elif w == 'avail':
            ix, cols, sub, sysp, cum, exp = c18.plant(g, n=120, messy=False)
            a = AV.AvailabilityAnalysis(sysp, sub, cum, exp)
            st, _, _ = attempt(a.run)
            if st != 'ok':
                raise Skip()
            call(w, PL.availability_summary_plots, sysp, sub, a.loss_total, cum, a.energy_expected_rescaled, a.outage_info)
        else:
            s = hourly(g)
            call(w, PL.tune_filter_plot, s, F.poa_filter(s))
    finally:
        plt.close('all')


@check('C24', 6)
def temperature(g):
    day = np.arange(12.0 * 20 * 40).reshape(12, 20, 40)
    ix = pd.date_range('2020-01-01', periods=g.int(30, 90), freq=g.choice('1h', '15min'), tz=g.choice('UTC', 'Etc/GMT+7'))
    snap = Snapshot(times=ix, day=day)
    attempt(c23.call, day, day + 1, ix, 40.0, -105.0)
    snap.verify('get_clearsky_tamb')
