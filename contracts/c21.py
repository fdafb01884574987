from vc.api import *

P = 'C21'
ASSUME = ['callees through their contracts: interpolation (C01), energy (C02), normalization (C03), filters (C04-C06, C20), aggregation (C07), '
          'year-on-year (C08), soiling (C13-C15), clear-sky temperature (C23), irradiance rescaling (C26)']
CALLS = {}
# positional names of each callee's data arguments
ARGS = {'interpolate': ('time_series', 'target', 'max_timedelta', 'warning_threshold'),
        'energy_from_power': ('power', 'target_frequency', 'max_timedelta', 'power_type'),
        'normalize_with_expected_power': ('pv', 'power_expected', 'poa_global', 'pv_input'),
        'normalize_with_pvwatts': ('energy', 'pvwatts_kws'),
        'aggregation_insol': ('energy_normalized', 'insolation', 'frequency'),
        'irradiance_rescale': ('irrad', 'irrad_sim', 'max_iterations', 'method', 'convergence_threshold'),
        'get_clearsky_tamb': ('times', 'latitude', 'longitude', 'window_size', 'gauss_std'),
        'robust_quantile': ('x', 'q'),
        '_pvwatts_norm': ('poa_global', 'temperature_cell'), '_calc_cell_temperature': ('poa_global', 'temperature_ambient', 'windspeed'),
        '_filter': ('energy_normalized', 'case'), '_aggregated_filter': ('aggregated', 'case'),
        '_aggregate': ('energy_normalized', 'insolation'), '_filter_check': ('post_filter',)}


def record(name, args, kw):
    names = ARGS[name]
    a = dict(zip(names, args))
    a.update(kw)
    CALLS.setdefault(name, []).append(a)
    return a


def stub(name, make):
    def f(*args, **kw):
        a = record(name, args, kw)
        out = make(**a)
        a['->'] = out
        return out
    return f


def method(name, make):
    def f(self, *args, **kw):
        a = record(name, args, kw)
        out = make(self, **a)
        a['->'] = out
        return out
    return f


def calls(name):
    return CALLS.get(name, [])


def one(name, callee):
    """the step is one call of the callee; without any, the step is not expressed through it and is not decided here"""
    c = calls(callee)
    if not c:
        raise Unsupported(f'{callee} not called')
    ensure(name, len(c) == 1)
    return c


def same_series(a, b, t):
    if not isinstance(a, Series) or not isinstance(b, Series):
        return a is b
    if a is b:
        return True
    return And(Iff(a._dom.mem(t), b._dom.mem(t)), Implies(a._dom.mem(t), same(a._cell(t), b._cell(t))))


def new(u):
    CALLS.clear()
    return object.__new__(u.analysis_chains.TrendAnalysis)


# ------------------------------------------------------------------ preprocessing
def on(ix, name):
    return sym_series(name, ix, owner=False)


def norm_result(self, **a):
    ix = sym_index('normalized', nonempty=True)
    return on(ix, 'energy_normalized'), on(ix, 'insolation')


def filter_result(attr):
    def f(self, case, **a):
        en = next(iter(a.values()))
        extra = cell_fun(attr + '_more_labels', 'b')
        d = Dom('T', lambda t: Or(en._dom.mem(t), extra(t).b), name=attr)
        m = Series._mk(DatetimeIndex(d), cell_fun(attr, 'b'))
        CALLS.setdefault('insolation seen by ' + attr, []).append(getattr(self, case + '_aggregated_insolation', None))
        setattr(self, case + '_' + attr, m)
        return None
    return f


def aggregate_result(self, **a):
    ix = sym_index('aggregated', nonempty=True)
    return on(ix, 'agg_performance'), on(ix, 'agg_insolation')


def tamb_result(self):
    self.temperature_ambient_clearsky = sym_series('tamb_model')


def poa_result(self, **kw):
    self.poa_global_clearsky = sym_series('poa_model')


def m_poa(self, *args, **kw):
    CALLS.setdefault('_calc_clearsky_poa', []).append((args, kw))
    if not hasattr(self, 'pvlib_location'):
        raise ValueError('no location')
    poa_result(self)


def m_tamb(self):
    CALLS.setdefault('_calc_clearsky_tamb', []).append({})
    tamb_result(self)


PRE = {'analysis_chains.TrendAnalysis._pvwatts_norm': method('_pvwatts_norm', norm_result),
       'analysis_chains.TrendAnalysis._calc_cell_temperature': method('_calc_cell_temperature', lambda self, **a: sym_series('tcell_model')),
       'analysis_chains.TrendAnalysis._calc_clearsky_poa': m_poa,
       'analysis_chains.TrendAnalysis._calc_clearsky_tamb': m_tamb,
       'analysis_chains.TrendAnalysis._filter': method('_filter', filter_result('filter')),
       'analysis_chains.TrendAnalysis._aggregated_filter': method('_aggregated_filter', filter_result('filter_aggregated')),
       'analysis_chains.TrendAnalysis._aggregate': method('_aggregate', aggregate_result),
       'normalization.normalize_with_expected_power': stub('normalize_with_expected_power', lambda **a: norm_result(None))}


def kept(s, m):
    """the points of s the mask keeps"""
    d = Dom('T', lambda t: And(s._dom.mem(t), m._cell(t).b), name='kept')
    return Series._mk(DatetimeIndex(d, tz=s.index._tz), s._cell, s.name)


def pipeline(ta, case, freq):
    """filter -> aggregate the kept points -> aggregated filter -> kept periods on the regular grid"""
    f = one('filter:once', '_filter')
    norm = calls('_pvwatts_norm') + calls('normalize_with_expected_power')
    if not norm:
        raise Unsupported('normalization not called')
    ensure('normalized once', len(norm) == 1)
    en, ins = norm[0]['->']
    t = label()
    ensure('filter:case', f[0]['case'] == case)
    ensure('filter:on the normalized energy', same_series(f[0]['energy_normalized'], en, t))
    a = one('aggregate:once', '_aggregate')[0]
    m = getattr(ta, case + '_filter')
    ensure('aggregate:only the energy kept', same_series(a['energy_normalized'], kept(en, m), t))
    ensure('aggregate:only the insolation kept', same_series(a['insolation'], kept(ins, m), t))
    agg, ai = a['->']
    g = one('aggregated filter:once', '_aggregated_filter')
    ensure('aggregated filter:case', g[0]['case'] == case)
    ensure('aggregated filter:on the aggregated energy', same_series(g[0]['aggregated'], agg, t))
    ensure('aggregated filter:with the aggregated insolation', same_series(CALLS['insolation seen by filter_aggregated'][-1], ai, t))
    am = getattr(ta, case + '_filter_aggregated')
    for what, src in (('performance', agg), ('insolation', ai)):
        out = getattr(ta, f'{case}_aggregated_{what}')
        k = src[am]
        grid = k.resample(freq, origin='start_day').sum()
        ensure(f'{what}:periods', Iff(out._dom.mem(t), grid._dom.mem(t)))
        ensure(f'{what}:value', Implies(grid._dom.mem(t), same(out._cell(t), ite(And(src._dom.mem(t), am._cell(t).b), src._cell(t),
                                                                               SF.of(float('nan'))))))


@contract(P, '_sensor_preprocess', ['analysis_chains.TrendAnalysis._sensor_preprocess'], assumptions=ASSUME, overrides=PRE)
def _(u):
    ta = new(u)
    freq = Freq('F')
    ta.aggregation_freq = freq
    ta.pv_energy = sym_series('energy')
    ta.pv_power = None
    poa = fork('irradiance', sym_series('poa'), None)
    ta.poa_global = poa
    tc, tamb = fork('cell temperature', sym_series('tcell'), None), fork('ambient temperature', sym_series('tamb'), None)
    ta.temperature_cell, ta.temperature_ambient = tc, tamb
    ta.windspeed = fork('windspeed', 0, sym_series('wind')) if tc is None and tamb is not None else 0
    ta.power_expected = fork('expected power', None, sym_series('expected'))
    cs = fork('sensor_clearsky_filter', False, True)
    ta._filter_params = {'sensor_clearsky_filter': {}} if cs else {}
    state = fork('clear-sky', 'never set', 'location', 'given') if cs else fork('clear-sky', 'never set', 'given')
    given = sym_series('poa_cs')
    if state != 'never set':
        ta.pvlib_location = Loc()
        ta.poa_global_clearsky = given if state == 'given' else None
    r, v = raises((ValueError, AttributeError), ta._sensor_preprocess)
    missing = poa is None or (ta.power_expected is None and tc is None and tamb is None)
    if poa is None or (cs and state == 'never set') or missing:
        ensure('missing input raises', r)
        ensure('error type', isinstance(v, AttributeError) if poa is not None and cs and state == 'never set' else isinstance(v, ValueError))
        ensure('no estimate', not hasattr(ta, 'sensor_aggregated_performance'))
        return
    ensure('runs', not r)
    unchanged()
    t = label()
    if cs and state == 'location':
        ensure('clear-sky irradiance modelled', len(calls('_calc_clearsky_poa')) == 1)
    else:
        ensure('clear-sky irradiance not modelled', not calls('_calc_clearsky_poa'))
        if state == 'given':
            ensure('clear-sky irradiance kept', ta.poa_global_clearsky is given)
    ensure('clear-sky temperature not used', not calls('_calc_clearsky_tamb'))
    if ta.power_expected is None:
        a = one('pvwatts model', '_pvwatts_norm')
        ensure('pvwatts model only', not calls('normalize_with_expected_power'))
        ensure('measured irradiance', same_series(a[0]['poa_global'], poa, t))
        if tc is not None:
            ensure('measured cell temperature', same_series(a[0]['temperature_cell'], tc, t))
            ensure('no temperature model', not calls('_calc_cell_temperature'))
        else:
            m = one('temperature model', '_calc_cell_temperature')
            ensure('temperature model:inputs', And(same_series(m[0]['poa_global'], poa, t), same_series(m[0]['temperature_ambient'], tamb, t),
                                                   same_series(m[0]['windspeed'], ta.windspeed, t) if isinstance(ta.windspeed, Series)
                                                   else m[0]['windspeed'] == 0))
            ensure('modelled cell temperature', same_series(a[0]['temperature_cell'], m[0]['->'], t))
            ensure('modelled cell temperature available to the filters', same_series(ta.temperature_cell, m[0]['->'], t))
    else:
        a = one('expected power', 'normalize_with_expected_power')
        ensure('expected power only', not calls('_pvwatts_norm'))
        ensure('expected power:inputs', And(same_series(a[0]['pv'], ta.pv_energy, t), same_series(a[0]['power_expected'], ta.power_expected, t),
                                            same_series(a[0]['poa_global'], poa, t)))
        ensure('expected power:energy', a[0].get('pv_input') == 'energy')
    pipeline(ta, 'sensor', freq)


class Loc:
    pass


@contract(P, '_clearsky_preprocess', ['analysis_chains.TrendAnalysis._clearsky_preprocess'], assumptions=ASSUME, overrides=PRE)
def _(u):
    ta = new(u)
    freq = Freq('F')
    ta.aggregation_freq = freq
    ta.pv_energy, ta.pv_power = sym_series('energy'), None
    ta.poa_global, ta.temperature_cell, ta.temperature_ambient = sym_series('poa'), sym_series('tcell'), sym_series('tamb')
    ta.windspeed = 3
    ta.power_expected = fork('expected power', None, sym_series('expected'))
    ta._filter_params = {'clearsky_filter': {}}
    measured = (ta.poa_global, ta.temperature_cell, ta.temperature_ambient)
    if not fork('set_clearsky done', True, False):
        r, v = raises(AttributeError, ta._clearsky_preprocess)
        ensure('before set_clearsky raises', r)
        ensure('no estimate', not hasattr(ta, 'clearsky_aggregated_performance'))
        return
    ta.pvlib_location = Loc()
    poa, tc, tamb = (fork('clear-sky ' + n, sym_series(n + '_cs'), None) for n in ('poa', 'tcell', 'tamb'))
    ta.poa_global_clearsky, ta.temperature_cell_clearsky, ta.temperature_ambient_clearsky = poa, tc, tamb
    ta._clearsky_preprocess()
    unchanged()
    t = label()
    ensure('measurements kept', measured == (ta.poa_global, ta.temperature_cell, ta.temperature_ambient) or
           all(a is b for a, b in zip(measured, (ta.poa_global, ta.temperature_cell, ta.temperature_ambient))))
    ensure('irradiance modelled only if not given', len(calls('_calc_clearsky_poa')) == (1 if poa is None else 0))
    if poa is not None:
        ensure('irradiance given', ta.poa_global_clearsky is poa)
    P_ = ta.poa_global_clearsky
    ensure('ambient temperature modelled only if needed', len(calls('_calc_clearsky_tamb')) == (1 if tc is None and tamb is None else 0))
    m = calls('_calc_cell_temperature')
    ensure('cell temperature modelled only if not given', len(m) == (1 if tc is None else 0))
    if tc is None:
        ensure('temperature model:inputs', And(same_series(m[0]['poa_global'], P_, t),
                                               same_series(m[0]['temperature_ambient'], ta.temperature_ambient_clearsky, t)))
        ensure('temperature model:no wind', isinstance(m[0]['windspeed'], (int, float)) and m[0]['windspeed'] == 0)
        if tamb is not None:
            ensure('ambient temperature given', ta.temperature_ambient_clearsky is tamb)
        T = m[0]['->']
    else:
        T = tc
    ensure('cell temperature available to the filters', same_series(ta.temperature_cell_clearsky, T, t))
    if ta.power_expected is None:
        a = one('pvwatts model', '_pvwatts_norm')
        ensure('pvwatts model only', not calls('normalize_with_expected_power'))
        ensure('clear-sky irradiance', same_series(a[0]['poa_global'], P_, t))
        ensure('clear-sky cell temperature', same_series(a[0]['temperature_cell'], T, t))
    else:
        a = one('expected power', 'normalize_with_expected_power')
        ensure('expected power only', not calls('_pvwatts_norm'))
        ensure('expected power:inputs', And(same_series(a[0]['pv'], ta.pv_energy, t), same_series(a[0]['power_expected'], ta.power_expected, t),
                                            same_series(a[0]['poa_global'], P_, t)))
        ensure('expected power:energy', a[0].get('pv_input') == 'energy')
    pipeline(ta, 'clearsky', freq)


# ------------------------------------------------------------------ normalization and aggregation
def pvw(energy=None, pvwatts_kws=None, **k):
    return norm_result(None)


def rq(x=None, q=None):
    return sym_float('robust_quantile', nan=True)


@contract(P, '_pvwatts_norm', ['analysis_chains.TrendAnalysis._pvwatts_norm'], assumptions=ASSUME,
          overrides={'normalization.normalize_with_pvwatts': stub('normalize_with_pvwatts', pvw),
                     'utilities.robust_quantile': stub('robust_quantile', rq)})
def _(u):
    ta = new(u)
    ta.pv_energy = sym_series('energy')
    poa, tc = sym_series('poa'), fork('temperature', sym_series('tcell'), None)
    ta.gamma_pdc = fork('gamma', sym_float('gamma'), None)
    ta.power_dc_rated = fork('rated', sym_float('rated'), None)
    en, ins = ta._pvwatts_norm(poa, tc)
    unchanged()
    t = label()
    c = one('normalized once', 'normalize_with_pvwatts')
    ensure('measured energy', same_series(c[0]['energy'], ta.pv_energy, t))
    k = c[0]['pvwatts_kws']
    ensure('irradiance', same_series(k['poa_global'], poa, t))
    ensure('temperature', k.get('temperature_cell') is None if tc is None else same_series(k['temperature_cell'], tc, t))
    ensure('gamma', k.get('gamma_pdc') is None if ta.gamma_pdc is None else same(k['gamma_pdc'], ta.gamma_pdc))
    ensure('rated power', same(k['power_dc_rated'], 1.0 if ta.power_dc_rated is None else ta.power_dc_rated))
    ensure('reference conditions', same(k.get('poa_global_ref', 1000), 1000) and same(k.get('temperature_cell_ref', 25), 25))
    e, i = c[0]['->']
    ensure('insolation', same_series(ins, i, t))
    if ta.power_dc_rated is not None:
        ensure('as normalized', same_series(en, e, t))
        ensure('not rescaled', not calls('robust_quantile'))
        return
    r = one('scaled once', 'robust_quantile')
    ensure('scaled by the 95th percentile', r[0]['q'] == 0.95)
    x = r[0]['x']
    ensure('percentile of the finite values', And(Iff(x._dom.mem(t), And(e._dom.mem(t), Not(e._cell(t).nan), Not(e._cell(t).pi), Not(e._cell(t).ni))),
                                                  Implies(x._dom.mem(t), same(x._cell(t), e._cell(t)))))
    ensure('index', Iff(en._dom.mem(t), e._dom.mem(t)))
    ensure('value', Implies(e._dom.mem(t), same(en._cell(t), e._cell(t) / r[0]['->'])))


@contract(P, '_aggregate', ['analysis_chains.TrendAnalysis._aggregate'], assumptions=ASSUME,
          overrides={'aggregation.aggregation_insol': stub('aggregation_insol', lambda **a: sym_series('aggregated', owner=False))})
def _(u):
    ta = new(u)
    ta.aggregation_freq = Freq('F')
    ix = sym_index('ix', nonempty=True)
    en, ins = sym_series('en', ix), sym_series('ins', ix)
    a, b = ta._aggregate(en, ins)
    unchanged()
    t = label()
    c = one('aggregated once', 'aggregation_insol')
    ensure('aggregated:inputs', And(same_series(c[0]['energy_normalized'], en, t), same_series(c[0]['insolation'], ins, t)))
    ensure('aggregated:frequency', c[0].get('frequency') is ta.aggregation_freq)
    ensure('aggregated', same_series(a, c[0]['->'], t))
    w = ins.resample(ta.aggregation_freq, origin='start_day').sum()
    ensure('insolation', same_series(b, w, t))


# ------------------------------------------------------------------ estimates
def est(name):
    def f(*args, **kw):
        out = (sym_float(name), Loc(), Loc())
        CALLS.setdefault(name, []).append((args, kw, out))
        return out
    return f


@contract(P, '_yoy_degradation', ['analysis_chains.TrendAnalysis._yoy_degradation', 'analysis_chains.TrendAnalysis._filter_check'],
          assumptions=ASSUME, overrides={'degradation.degradation_year_on_year': est('yoy')})
def _(u):
    ta = new(u)
    en = sym_series('en')
    opt = fork('options', {}, {'confidence_level': sym_float('c'), 'recenter': False})
    r, v = raises(ValueError, lambda: ta._yoy_degradation(en, **opt))
    unchanged()
    empty = bool(en.empty)
    if not empty:
        short = (en.index[-1] - en.index[0]) < Timedelta('730d')
    enough = (not empty) and Not(short.b if isinstance(short, SB) else short)
    if r:
        ensure('raises only with less than two years', Not(enough))
        ensure('no estimate', not calls('yoy'))
        return
    ensure('at least two years', enough)
    c = one('estimated once', 'yoy')
    args, kw, out = c[0]
    data = args[0] if args else kw.pop('energy_normalized')
    t = label()
    ensure('on the data', same_series(data, en, t))
    ensure('options', set(kw) == set(opt) and all(kw[k] is opt[k] for k in opt))
    ensure('result', set(v) == {'p50_rd', 'rd_confidence_interval', 'calc_info'} and v['p50_rd'] is out[0]
           and v['rd_confidence_interval'] is out[1] and v['calc_info'] is out[2])


@contract(P, '_srr_soiling', ['analysis_chains.TrendAnalysis._srr_soiling'], assumptions=ASSUME,
          overrides={'soiling.soiling_srr': est('srr')})
def _(u):
    ta = new(u)
    f1, f2 = (fork('freq ' + n, to_offset('D'), Freq('other_' + n), None) for n in ('energy', 'insolation'))
    en, ins = sym_series('en', freq=f1), sym_series('ins', freq=f2)
    opt = fork('options', {}, {'reps': 7, 'method': 'random_clean'})
    r, v = raises(ValueError, lambda: ta._srr_soiling(en, ins, **opt))
    unchanged()
    daily = And(*[False if f is None else zi(f.nanos.v) == 86400 * 10**9 for f in (f1, f2)])
    if r:
        ensure('raises only if not daily', Not(daily))
        ensure('no estimate', not calls('srr'))
        return
    ensure('daily', daily)
    c = one('estimated once', 'srr')
    args, kw, out = c[0]
    a = dict(zip(('energy_normalized_daily', 'insolation_daily'), args))
    for k in ('energy_normalized_daily', 'insolation_daily'):
        if k in kw:
            a[k] = kw.pop(k)
    t = label()
    ensure('on the data', And(same_series(a['energy_normalized_daily'], en, t), same_series(a['insolation_daily'], ins, t)))
    ensure('options', set(kw) == set(opt) and all(kw[k] is opt[k] for k in opt))
    ensure('result', set(v) == {'p50_sratio', 'sratio_confidence_interval', 'calc_info'} and v['p50_sratio'] is out[0]
           and v['sratio_confidence_interval'] is out[1] and v['calc_info'] is out[2])


for CASE in ('sensor', 'clearsky'):
    def pre(self, CASE=CASE):
        CALLS.setdefault('pre', []).append(CASE)
        if CALLS.get('fail'):
            raise ValueError('missing')
        setattr(self, CASE + '_aggregated_performance', sym_series('perf', owner=False))
        setattr(self, CASE + '_aggregated_insolation', sym_series('insol', owner=False))

    def other(self):
        CALLS.setdefault('pre', []).append('other')

    def step(name):
        def f(self, *args, **kw):
            out = Loc()
            CALLS.setdefault(name, []).append((args, kw, out))
            return out
        return f

    OTHER = 'clearsky' if CASE == 'sensor' else 'sensor'

    @contract(P, f'{CASE}_analysis', [f'analysis_chains.TrendAnalysis.{CASE}_analysis'], assumptions=ASSUME,
              overrides={f'analysis_chains.TrendAnalysis._{CASE}_preprocess': pre, f'analysis_chains.TrendAnalysis._{OTHER}_preprocess': other,
                         'analysis_chains.TrendAnalysis._yoy_degradation': step('_yoy'),
                         'analysis_chains.TrendAnalysis._srr_soiling': step('_srr')})
    def _(u, CASE=CASE, OTHER=OTHER):
        ta = new(u)
        CALLS['fail'] = fork('missing inputs', False, True)
        kept_ = Loc()
        ta.results = fork('earlier results', {}, {OTHER: kept_}, {CASE: Loc()})
        before = dict(ta.results)
        want = fork('analyses', None, ['yoy_degradation'], ['srr_soiling'], ['srr_soiling', 'yoy_degradation'], [])
        yk, sk = {'recenter': False, 'uncertainty_method': None}, {'reps': 5}
        kw = {} if want is None else {'analyses': want}
        if fork('options', True, False):
            kw.update(yoy_kwargs=yk, srr_kwargs=sk)
        else:
            yk, sk = {}, {}
        run = getattr(ta, CASE + '_analysis')
        r, v = raises(ValueError, lambda: run(**kw))
        if CALLS['fail']:
            ensure('missing inputs raise', r)
            ensure('no new results', ta.results == before)
            return
        ensure('runs', not r)
        want = ['yoy_degradation'] if want is None else want
        if not calls('pre') or ('yoy_degradation' in want and not calls('_yoy')) or ('srr_soiling' in want and not calls('_srr')):
            raise Unsupported('step not called')
        ensure('one preprocessing, of this case', CALLS['pre'] == [CASE])
        ensure('other results kept', set(ta.results) == set(before) | {CASE} and all(ta.results[k] is before[k] for k in before if k != CASE))
        res = ta.results[CASE]
        ensure('requested analyses only', set(res) == set(want))
        ensure('each at most once', len(calls('_yoy')) == ('yoy_degradation' in want) and len(calls('_srr')) == ('srr_soiling' in want))
        perf, ins = getattr(ta, CASE + '_aggregated_performance'), getattr(ta, CASE + '_aggregated_insolation')
        t = label()
        if 'yoy_degradation' in want:
            a, k, out = calls('_yoy')[0]
            a += tuple(k.pop(n) for n in ('energy_normalized',) if n in k)
            ensure('yoy:result', res['yoy_degradation'] is out)
            ensure('yoy:data', len(a) == 1 and same_series(a[0], perf, t))
            ensure('yoy:options', k == yk)
        if 'srr_soiling' in want:
            a, k, out = calls('_srr')[0]
            a += tuple(k.pop(n) for n in ('energy_normalized_daily', 'insolation_daily') if n in k)
            ensure('srr:result', res['srr_soiling'] is out)
            ensure('srr:data', len(a) == 2 and And(same_series(a[0], perf, t), same_series(a[1], ins, t)))
            ensure('srr:options', k == sk)


# ------------------------------------------------------------------ inputs
def interp(time_series=None, target=None, max_timedelta=None, **k):
    ix = target if isinstance(target, DatetimeIndex) else sym_index('regular', nonempty=True)
    return sym_series('interpolated', ix, owner=False)


def energy(power=None, **k):
    return sym_series('integrated', owner=False)


IN = {'normalization.interpolate': stub('interpolate', interp), 'normalization.energy_from_power': stub('energy_from_power', energy)}


def interpolated(x, target, gap, t):
    """the contract of the value a series input must have: its interpolation onto target"""
    c = [a for a in calls('interpolate') if a['time_series'] is x and same_target(a['target'], target) and a.get('max_timedelta') is gap]
    return [a['->'] for a in c]


def same_target(a, b):
    return a is b or (isinstance(a, DatetimeIndex) and isinstance(b, DatetimeIndex) and a._dom is b._dom)


@contract(P, 'TrendAnalysis.__init__', ['analysis_chains.TrendAnalysis.__init__'], assumptions=ASSUME, overrides=IN)
def _(u):
    CALLS.clear()
    pv = sym_series('pv')
    kind = fork('input', 'power', 'energy')
    freq = fork('interp_freq', None, Freq('I'))
    gap = fork('max_timedelta', None, SD(ctx().int('gap')))
    given = fork('inputs given', 'all', 'none', 'expected only')
    names = ['poa_global', 'temperature_cell', 'temperature_ambient', 'power_expected', 'windspeed']
    have = {n: sym_series(n) for n in names} if given == 'all' else \
        {'power_expected': sym_series('power_expected')} if given == 'expected only' else {}
    other = dict(gamma_pdc=sym_float('gamma'), aggregation_freq=Freq('A'), temperature_model='m', power_dc_rated=sym_float('rated'))
    ta = u.analysis_chains.TrendAnalysis(pv, pv_input=kind, interp_freq=freq, max_timedelta=gap, **have, **other)
    unchanged()
    t = label()
    if freq is None:
        main = pv
    else:
        ok = [a['->'] for a in calls('interpolate') if a['time_series'] is pv and a['target'] is freq and a.get('max_timedelta') is gap]
        ensure('measurements regularized', len(ok) == 1)
        main = ok[0]
    if kind == 'power':
        ensure('power', same_series(ta.pv_power, main, t))
        e = one('integrated once', 'energy_from_power')
        ensure('energy integrated', e[0]['power'] is main and e[0].get('max_timedelta') is gap
               and e[0].get('power_type', 'right_labeled') == 'right_labeled' and e[0].get('target_frequency') is None)
        ensure('energy', same_series(ta.pv_energy, e[0]['->'], t))
    else:
        ensure('power', ta.pv_power is None)
        ensure('energy', same_series(ta.pv_energy, main, t))
        ensure('no integration', not calls('energy_from_power'))
    for n in names:
        v = getattr(ta, n)
        if n not in have:
            ensure(n + ':absent', v == 0 if n == 'windspeed' else v is None)
        else:
            ok = interpolated(have[n], main.index, gap, t)
            ensure(n + ':interpolated', len(ok) == 1)
            ensure(n, same_series(v, ok[0], t))
    for n, w in other.items():
        ensure(n, getattr(ta, n) is w)
    ensure('options', ta.interp_freq is freq and ta.max_timedelta is gap and ta.results == {})
    fp = set(ta.filter_params)
    ensure('default filters', fp == {'normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'clearsky_filter', 'ad_hoc_filter'}
           - ({'tcell_filter'} if given == 'expected only' else set()))
    ensure('default aggregated filters', set(ta.filter_params_aggregated) == {'two_way_window_filter', 'ad_hoc_filter'})


@contract(P, 'set_clearsky', ['analysis_chains.TrendAnalysis.set_clearsky'], assumptions=ASSUME, overrides=IN)
def _(u):
    ta = new(u)
    ta.pv_energy = sym_series('energy')
    gap = fork('max_timedelta', None, SD(ctx().int('gap')))
    ta.max_timedelta = gap
    given = fork('inputs given', 'all', 'none', 'constant orientation')
    names = ['poa_global_clearsky', 'temperature_cell_clearsky', 'temperature_ambient_clearsky', 'pv_azimuth', 'pv_tilt']
    series = names if given == 'all' else []
    have = {n: sym_series(n) for n in series}
    const = {'pv_azimuth': sym_float('az'), 'pv_tilt': sym_float('tilt')} if given == 'constant orientation' else {}
    loc, alb = Loc(), sym_float('albedo')
    keep = dict(have, **const)
    ta.set_clearsky(pvlib_location=loc, albedo=alb, solar_position_method='m', **keep)
    unchanged()
    t = label()
    for n in names:
        v = getattr(ta, n)
        if n in have:
            ok = interpolated(have[n], ta.pv_energy.index, gap, t)
            ensure(n + ':interpolated', len(ok) == 1)
            ensure(n, same_series(v, ok[0], t))
        else:
            ensure(n, v is const.get(n))
    ensure('location', ta.pvlib_location is loc and ta.albedo is alb and ta.solar_position_method == 'm')


# ------------------------------------------------------------------ models
class Sapm:
    pass


def sapm_stub():
    def cell(poa_global=None, temp_air=None, wind_speed=None, **k):
        out = sym_series('sapm', owner=False)
        CALLS.setdefault('sapm_cell', []).append((poa_global, temp_air, wind_speed, k, out))
        return out
    params = {'sapm': {'open_rack_glass_polymer': {'a': -1, 'b': -2, 'deltaT': 3}, 'other': {'a': -4, 'b': -5, 'deltaT': 6}}}
    temp = Stub('pvlib.temperature', dict(TEMPERATURE_MODEL_PARAMETERS=params, sapm_cell=cell))
    return Stub('pvlib', dict(temperature=temp)), params


PV, PARAMS = sapm_stub()


@contract(P, '_calc_cell_temperature', ['analysis_chains.TrendAnalysis._calc_cell_temperature'], assumptions=ASSUME, modules={'pvlib': PV})
def _(u):
    ta = new(u)
    own = {'a': 1, 'b': 2, 'deltaT': 3}
    model = fork('temperature model', None, 'open_rack_glass_polymer', 'other', own, {'a': 1, 'b': 2}, 5)
    ta.temperature_model = model
    poa, tamb, wind = sym_series('poa'), sym_series('tamb'), fork('wind', 0, sym_series('wind'))
    bad = model == 5 or model == {'a': 1, 'b': 2}
    r, v = raises((ValueError, TypeError), lambda: ta._calc_cell_temperature(poa, tamb, wind))
    unchanged()
    if bad:
        ensure('invalid model raises', r)
        return
    ensure('runs', not r)
    c = one('modelled once', 'sapm_cell')
    t = label()
    ensure('inputs', And(same_series(c[0][0], poa, t), same_series(c[0][1], tamb, t), c[0][2] is wind))
    ensure('parameters', c[0][3] == (PARAMS['sapm']['open_rack_glass_polymer'] if model is None else own if isinstance(model, dict)
                                     else PARAMS['sapm'][model]))
    ensure('result', v is c[0][4])


@contract(P, '_calc_clearsky_tamb', ['analysis_chains.TrendAnalysis._calc_clearsky_tamb'], assumptions=ASSUME,
          overrides={'clearsky_temperature.get_clearsky_tamb': stub('get_clearsky_tamb', lambda **a: sym_series('tamb', owner=False))})
def _(u):
    ta = new(u)
    ta.poa_global_clearsky = sym_series('poa_cs')
    if fork('location', True, False):
        ta.pvlib_location = Loc()
        ta.pvlib_location.latitude, ta.pvlib_location.longitude = sym_float('lat'), sym_float('lon')
    else:
        r, v = raises(ValueError, ta._calc_clearsky_tamb)
        ensure('no location raises', r)
        return
    ta._calc_clearsky_tamb()
    unchanged()
    c = one('once', 'get_clearsky_tamb')
    ensure('at the times of the irradiance', same_target(c[0]['times'], ta.poa_global_clearsky.index))
    ensure('at the location', And(same(c[0]['latitude'], ta.pvlib_location.latitude), same(c[0]['longitude'], ta.pvlib_location.longitude)))
    ensure('default smoothing', c[0].get('window_size', 40) == 40 and c[0].get('gauss_std', 20) == 20)
    ensure('stored', ta.temperature_ambient_clearsky is c[0]['->'])
