from base import *
import pvlib
import rdtools
from rdtools import TrendAnalysis, filtering as F, normalization as N, aggregation as A, degradation as D, soiling as SO, utilities as U
from c20 import quiet, combine, adhoc
LOC = pvlib.location.Location(40.0, -105.25)


def year_inputs(g):
    freq = g.choice('3h', '4h', '6h')
    tz = g.choice('UTC', 'Etc/GMT+7')
    days = g.int(760, 840)
    step = pd.Timedelta(freq)
    ix = pd.date_range(pd.Timestamp('2018-03-01', tz=tz), periods=int(days * 24 * 3600 // step.total_seconds()), freq=freq)
    h = np.asarray(ix.hour, float)
    base = np.clip(np.sin((h - 5) / 13 * np.pi), 0, None)
    cs = pd.Series(1050 * base, ix)
    r = g.np
    poa = pd.Series(cs.values * r.choice([1.0, 1.0, 0.95, 0.8, 0.4], len(ix)), ix)
    rd = g.choice(-0.01, -0.03, 0.01)
    yrs = np.asarray((ix - ix[0]) / pd.Timedelta('365d'), float)
    pv = pd.Series(poa.values * (1 + rd * yrs) * r.uniform(0.9, 1.0, len(ix)) * 0.005, ix)
    ta = pd.Series(15 + 10 * base + r.uniform(-2, 2, len(ix)), ix)
    tc = ta + 0.03 * poa
    for s in (poa, pv, tc, ta):
        for _ in range(g.choice(0, 2)):
            a = g.int(0, len(ix) - 30)
            s.iloc[a:a + g.int(1, 20)] = NAN
    return ix, pv, poa, ta, tc, cs


def params(g, case, pin):
    p = {}
    if g.p(0.8):
        p['normalized_filter'] = g.choice({}, dict(energy_normalized_low=0.3, energy_normalized_high=2.0))
    if g.p(0.8):
        p['poa_filter'] = g.choice({}, dict(poa_global_low=300))
    if g.p(0.6):
        p['tcell_filter'] = {}
    if pin == 'power' and g.p(0.5):
        p['clip_filter'] = g.choice(dict(model='quantile'), {})
    if case == 'clearsky':
        p['clearsky_filter'] = dict(model='csi', threshold=g.choice(0.15, 0.3, 0.7))
    q = {}
    if g.p(0.5):
        q['two_way_window_filter'] = {}
    if g.p(0.3):
        q['insolation_filter'] = g.choice({}, dict(quantile=0.2))
    if g.p(0.3):
        q['hampel_filter'] = {}
    return p, q


def point_mask(p, en, poa, tc, pvpower, mpoa, cs):
    comps = []
    for k, v in p.items():
        if k == 'normalized_filter':
            comps.append(F.normalized_filter(en, **v))
        elif k == 'poa_filter':
            comps.append(F.poa_filter(poa, **v))
        elif k == 'tcell_filter':
            comps.append(F.tcell_filter(tc, **v))
        elif k == 'clip_filter':
            comps.append(F.clip_filter(pvpower, **v))
        elif k == 'clearsky_filter':
            comps.append(F.clearsky_filter(mpoa, cs, **v))
    m = pd.Series(True, en.index)
    for c in comps:
        m &= c.reindex(en.index).fillna(False).astype(bool)
    return m


def agg_mask(q, agg, ins):
    m = pd.Series(True, agg.index)
    for k, v in q.items():
        c = getattr(F, k)(ins if k == 'insolation_filter' else agg, **v)
        m &= c.reindex(agg.index).fillna(False).astype(bool)
    return m


def pvwatts(energy, poa, tc, gamma, rated):
    en, ins = N.normalize_with_pvwatts(energy, dict(poa_global=poa, power_dc_rated=1.0 if rated is None else rated, temperature_cell=tc,
                                                    poa_global_ref=1000, temperature_cell_ref=25, gamma_pdc=gamma))
    if rated is None:
        en = en / U.robust_quantile(en[np.isfinite(en)], 0.95)
    return en, ins


@check('C21', 22)
def workflow(g):
    ix, pv, poa, tamb, tcell, cs = year_inputs(g)
    case = g.choice('sensor', 'clearsky')
    pin = g.choice('power', 'power', 'energy')
    have_tc = g.p(0.5)
    expected = poa * g.choice(0.004, 1.0) if g.p(0.25) else None
    gamma = g.choice(-0.004, -0.003, None)
    rated = g.choice(None, None, 5.0, 6.5)
    freq = g.choice('D', 'D', '7D', 'W')
    interp = g.choice(None, None, ix.freqstr, '2h' if ix.freqstr == '4h' else None)
    maxd = g.choice(None, None, pd.Timedelta('13h'))
    wind = g.choice(0, 2.5, pd.Series(3.0, ix))
    model = g.choice(None, 'open_rack_glass_glass', dict(a=-3.4, b=-0.05, deltaT=3))
    kw = dict(poa_global=poa, gamma_pdc=gamma, aggregation_freq=freq, pv_input=pin, power_expected=expected, power_dc_rated=rated,
              interp_freq=interp, max_timedelta=maxd, windspeed=wind, temperature_model=model)
    if have_tc:
        kw['temperature_cell'] = tcell
    else:
        kw['temperature_ambient'] = tamb
    p, q = params(g, case, pin)
    if expected is not None and not have_tc and case == 'sensor':
        p.pop('tcell_filter', None)
    cs_tc = g.p(0.5)
    snap = Snapshot(pv=pv, poa=poa, tamb=tamb, tcell=tcell, cs=cs, expected=expected)
    ta = must(TrendAnalysis, pv, **kw)
    ckw = dict(poa_global_clearsky=cs)
    ckw['temperature_cell_clearsky' if cs_tc else 'temperature_ambient_clearsky'] = tcell if cs_tc else tamb
    if case == 'clearsky' or g.p(0.5):
        must(ta.set_clearsky, pvlib_location=LOC, pv_tilt=30, pv_azimuth=180, **ckw)

    def setit():
        ta.filter_params = p
        ta.filter_params_aggregated = q
    must(quiet, setit)
    # ---- composition of the building blocks
    P = N.interpolate(pv, interp, maxd) if interp is not None else pv
    on = lambda s: N.interpolate(s, P.index, maxd)      # noqa
    E = N.energy_from_power(P, max_timedelta=maxd) if pin == 'power' else P
    X = on(expected) if expected is not None else None
    mp = None if model is None else model
    sapm = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm']
    mp = sapm['open_rack_glass_polymer'] if mp is None else sapm[mp] if isinstance(mp, str) else mp
    mpoa = on(poa)
    W = on(wind) if isinstance(wind, pd.Series) else wind
    try:
        if case == 'sensor':
            I = mpoa
            T = on(tcell) if have_tc else pvlib.temperature.sapm_cell(I, on(tamb), W, **mp) if X is None else None
        else:
            I = N.interpolate(cs, E.index, maxd)
            T = N.interpolate(tcell, E.index, maxd) if cs_tc else \
                pvlib.temperature.sapm_cell(I, N.interpolate(tamb, E.index, maxd), 0, **mp)
        en, ins = pvwatts(E, I, T, gamma, rated) if X is None else N.normalize_with_expected_power(E, X, I, pv_input='energy')
        m = point_mask(p, en, I, T, P, mpoa, N.interpolate(cs, E.index, maxd) if case == 'clearsky' else None)
        agg = A.aggregation_insol(en[m], ins[m], freq)
        ai = ins[m].resample(freq, origin='start_day').sum()
        am = agg_mask(q, agg, ai)
        perf, insol = agg[am], ai[am]
        perf = perf.resample(freq, origin='start_day').asfreq()
        insol = insol.resample(freq, origin='start_day').asfreq()
    except Skip:
        raise
    except Exception:
        raise Skip()
    if len(perf.dropna()) < 20:
        raise Skip()
    analyses = g.choice([['yoy_degradation'], ['yoy_degradation'], None, ['srr_soiling'], ['yoy_degradation', 'srr_soiling'], []])
    ykw = g.choice({}, dict(confidence_level=95.0, exceedance_prob=80.0), dict(recenter=False))
    skw = g.choice(dict(reps=3), dict(reps=2, method='random_clean'))
    run = ta.sensor_analysis if case == 'sensor' else ta.clearsky_analysis
    want = {}
    err = None
    seed = g.int(0, 10**6)
    names = ['yoy_degradation'] if analyses is None else analyses
    np.random.seed(seed)
    try:
        if 'yoy_degradation' in names:
            if perf.index[-1] - perf.index[0] < pd.Timedelta('730d'):
                raise ValueError('span')
            r = D.degradation_year_on_year(perf, **ykw)
            want['yoy_degradation'] = dict(p50_rd=r[0], rd_confidence_interval=r[1], calc_info=r[2])
        if 'srr_soiling' in names:
            if pd.tseries.frequencies.to_offset(freq) != pd.tseries.offsets.Day():
                raise ValueError('daily')
            r = SO.soiling_srr(perf, insol, **skw)
            want['srr_soiling'] = dict(p50_sratio=r[0], sratio_confidence_interval=r[1], calc_info=r[2])
    except Exception as e:
        err = e
    before = dict(ta.results)
    akw = {} if analyses is None else dict(analyses=analyses)
    if ykw:
        akw['yoy_kwargs'] = ykw
    if 'srr_soiling' in names:
        akw['srr_kwargs'] = skw
    np.random.seed(seed)
    st, v, _ = attempt(run, **akw)
    snap.verify('analysis')
    if err is not None:
        require(st == 'exc', 'the composed pipeline raises but the workflow returned', error=repr(err))
        if isinstance(err, ValueError):
            require(isinstance(v, ValueError), f'expected ValueError, got {type(v).__name__}: {v}')
        return
    if st != 'ok':
        raise Fail(f'{case}_analysis raised {type(v).__name__}: {v}\n' + ''.join(traceback.format_exception(v))[-1500:])
    gp, gi = getattr(ta, case + '_aggregated_performance'), getattr(ta, case + '_aggregated_insolation')
    C = dict(case=case, options={k: v for k, v in kw.items() if not isinstance(v, pd.Series)}, filters=p, aggregated=q)
    same_labels(gp.index, perf.index, 'aggregated performance', **C)
    same_values(gp.values, perf.values, 'aggregated performance', **C)
    same_values(gi.values, insol.values, 'aggregated insolation', **C)
    got = ta.results
    require(sorted(got) == [case], 'results of other workflows present', got=sorted(got), before=sorted(before))
    require(sorted(got[case]) == sorted(want), 'analyses present', got=sorted(got[case]), want=sorted(want), **C)
    for a, w in want.items():
        r = got[case][a]
        for k, x in w.items():
            if k == 'calc_info':
                for kk, xx in x.items():
                    y = r[k][kk]
                    if isinstance(xx, pd.Series):
                        same_values(y.values, xx.values, f'{a} {kk}', **C)
                    elif isinstance(xx, (float, int)):
                        require(close(y, xx), f'{a} {kk}', got=y, want=xx, **C)
            else:
                same_values(np.atleast_1d(r[k]), np.atleast_1d(x), f'{a} {k}', **C)
    # running again, or the other workflow first, changes nothing
    if g.p(0.3):
        np.random.seed(seed)
        must(run, **akw)
        same_values(getattr(ta, case + '_aggregated_performance').values, perf.values, 'second run', **C)


@check('C21', 14)
def missing_inputs(g):
    n = 48
    ix = pd.date_range('2020-06-01', periods=n, freq='1h', tz='UTC')
    s = pd.Series(1.0, ix)
    which = g.choice('poa', 'temp', 'clearsky', 'short')
    if which == 'poa':
        ta = must(TrendAnalysis, s, temperature_cell=s)
        must_raise(ValueError, ta.sensor_analysis)
    elif which == 'temp':
        ta = must(TrendAnalysis, s, poa_global=s)
        must_raise(ValueError, ta.sensor_analysis)
    elif which == 'clearsky':
        ta = must(TrendAnalysis, s, poa_global=s, temperature_cell=s)
        must_raise(AttributeError, ta.clearsky_analysis)
    else:
        ta = must(TrendAnalysis, s, poa_global=s * 800, temperature_cell=s, power_dc_rated=1.0)
        ta.filter_params.clear()
        ta.filter_params_aggregated.clear()
        must_raise(ValueError, ta.sensor_analysis)
    require('sensor' not in ta.results and 'clearsky' not in ta.results, 'results stored although the analysis failed', got=list(ta.results))


@check('C21', 6)
def modelled_clearsky(g):
    """clear-sky irradiance modelled from the location: one-minute model averaged over each right-labelled interval, rescaled"""
    n = g.int(30, 60)
    freq = g.choice('1h', '30min')
    ix = pd.date_range(pd.Timestamp('2020-06-01', tz='Etc/GMT+7'), periods=n, freq=freq)
    tilt, az, alb = g.choice(20, 35), g.choice(180, 150, 220), g.choice(0.25, 0.5)
    times = pd.date_range(ix[0], ix[-1], freq='1min')
    sun = LOC.get_solarposition(times, method='nrel_numpy')
    c = LOC.get_clearsky(times, solar_position=sun)
    m = pvlib.irradiance.get_total_irradiance(tilt, az, sun['apparent_zenith'], sun['azimuth'], c['dni'], c['ghi'], c['dhi'],
                                              albedo=alb, model='isotropic')['poa_global']
    want = [NAN]
    for a, b in zip(ix, ix[1:]):
        want.append(float(m[(m.index > a) & (m.index <= b)].mean()))
    want = pd.Series(want, ix)
    k = g.choice(0.9, 1.0, 1.1)
    poa = want * k * np.array([g.choice(1.0, 1.0, 1.0, 0.5) for _ in ix])
    poa.iloc[0] = 0.0
    ta = must(TrendAnalysis, poa * 0.005, poa_global=poa, temperature_cell=poa * 0 + 30, gamma_pdc=-0.003)
    must(ta.set_clearsky, pvlib_location=LOC, pv_tilt=tilt, pv_azimuth=az, albedo=alb, temperature_cell_clearsky=poa * 0 + 35)
    must(private(TrendAnalysis, '_calc_clearsky_poa'), ta, model='isotropic')
    try:
        w = N.irradiance_rescale(poa, want)
    except Exception:
        raise Skip()
    same_labels(ta.poa_global_clearsky.index, ix, 'modelled clear-sky irradiance')
    same_values(ta.poa_global_clearsky.values, w.values, 'modelled clear-sky irradiance', 1e-6, 1e-6)


@check('C21', 5)
def any_order(g):
    """each workflow gives the same results whatever ran before on the object"""
    ix, pv, poa, tamb, tcell, cs = year_inputs(g)
    kw = dict(poa_global=poa, temperature_ambient=tamb, gamma_pdc=-0.004)
    if g.p(0.3):
        kw['windspeed'] = pd.Series(2.0, ix)
    other = tamb + 3

    def build():
        ta = TrendAnalysis(pv, **kw)
        ta.set_clearsky(pvlib_location=LOC, pv_tilt=30, pv_azimuth=180, poa_global_clearsky=cs, temperature_ambient_clearsky=other)
        ta.filter_params['clearsky_filter'] = dict(model='csi', threshold=0.4)
        return ta
    out = []
    for order in (['sensor'], ['clearsky', 'sensor'], ['sensor', 'clearsky'], ['clearsky']):
        ta = must(build)
        for o in order:
            np.random.seed(4)
            st, v, _ = attempt(getattr(ta, o + '_analysis'))
            if st != 'ok':
                if isinstance(v, ValueError):
                    raise Skip()
                raise Fail(f'{o}_analysis after {order}: {type(v).__name__}: {v}')
        require(sorted(ta.results) == sorted(order), 'results present', got=sorted(ta.results), ran=order)
        out.append(ta)
    for c, a, b in (('sensor', 0, 1), ('sensor', 0, 2), ('clearsky', 3, 1), ('clearsky', 3, 2)):
        x, y = out[a], out[b]
        same_values(getattr(x, c + '_aggregated_performance').values, getattr(y, c + '_aggregated_performance').values,
                    f'{c} performance depends on earlier runs')
        same_values([x.results[c]['yoy_degradation']['p50_rd']], [y.results[c]['yoy_degradation']['p50_rd']],
                    f'{c} rate depends on earlier runs')
