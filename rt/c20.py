from base import *
import pvlib
import rdtools
from rdtools import TrendAnalysis, filtering as F, normalization as N
LOC = pvlib.location.Location(40.0, -105.25)


def inputs(g, n=None, freq=None, days=None):
    freq = freq or g.choice('1h', '30min', '2h')
    n = n or g.int(30, 150)
    tz = g.choice('UTC', 'Etc/GMT+7', 'America/Denver')
    ix = pd.date_range(pd.Timestamp('2019-05-30', tz='UTC'), periods=n, freq=freq).tz_convert(tz)
    h = np.asarray((ix.tz_convert('Etc/GMT+7').hour + ix.minute / 60), float)
    base = np.clip(np.sin((h - 6) / 12 * np.pi), 0, None)
    cs = pd.Series(1000 * base, ix)
    poa = pd.Series([x * g.choice(1.0, 1.0, 0.9, 0.5, 1.2, 1.3) for x in cs.values], ix)
    pv = pd.Series([x * g.choice(1.0, 1.0, 0.95, 0.3, 1.1) for x in poa.values], ix) * 0.005
    tc = pd.Series([g.choice(20.0, 35.0, 45.0, 110.0, 120.0, -60.0) for _ in range(n)], ix)
    tcs = pd.Series([g.choice(20.0, 35.0, 45.0, 110.0, 120.0, -60.0) for _ in range(n)], ix)
    for s in (poa, pv, tc, cs, tcs):
        for _ in range(g.choice(0, 0, 1, 6)):
            a = g.int(0, n - 1)
            s.iloc[a:a + g.int(1, 5)] = NAN
    return ix, pv, poa, tc, cs, tcs


def point_params(g, case, en):
    opt = dict(
        normalized_filter=lambda: g.choice({}, dict(energy_normalized_low=0.5), dict(energy_normalized_low=None, energy_normalized_high=1.0)),
        poa_filter=lambda: g.choice({}, dict(poa_global_low=500), dict(poa_global_high=900)),
        tcell_filter=lambda: g.choice({}, dict(temperature_cell_high=40), dict(temperature_cell_low=30)),
        clip_filter=lambda: g.choice(dict(model='quantile'), dict(model='quantile', quantile=0.5), dict(model='logic'), {}),
        hour_angle_filter=lambda: g.choice({}, dict(min_hour_angle=-50), dict(max_hour_angle=0)),
        clearsky_filter=lambda: g.choice(dict(model='csi'), dict(model='csi', threshold=0.3)),
        sensor_clearsky_filter=lambda: g.choice(dict(model='csi'), dict(model='csi', threshold=0.3)),
    )
    p = {k: f() for k, f in opt.items() if g.p(0.5)}
    if case == 'clearsky':
        p.pop('sensor_clearsky_filter', None)
        p.setdefault('clearsky_filter', opt['clearsky_filter']())
    return p


def adhoc(g, ix):
    how = g.choice('none', 'absent', 'same', 'same', 'nan', 'partial', 'shifted', 'partialnan')
    if how == 'none':
        return True, None
    if how == 'absent':
        return False, None
    v = [g.p(0.6) for _ in ix]
    s = pd.Series(v, ix)
    if how in ('nan', 'partialnan'):
        s = s.astype(object if g.p(0.5) else float)
        for i in range(len(s)):
            if g.p(0.2):
                s.iloc[i] = NAN
    if how in ('partial', 'partialnan'):
        s = s[[g.p(0.7) for _ in ix]]
        if not len(s):
            return True, None
    if how == 'shifted':
        s.index = s.index + (ix[1] - ix[0]) * g.choice(1, 3)
    return True, s


def combine(index, comps, ah):
    """expected mask on `index`; comps: list of boolean series, ah: ad hoc mask or None"""
    out = []
    for t in index:
        ok = True
        for c in comps:
            ok = ok and (t in c.index and bool(c[t] == True))   # noqa
        if ah is not None and t in ah.index:
            x = ah[t]
            ok = ok and (x == x and x is not None and bool(x))
        out.append(ok)
    return out


def verify(mask, components, index, want, comps, ah, names, what):
    require(isinstance(mask, pd.Series), what + ': mask is a Series', got=type(mask))
    require(len(mask) == len(mask.dropna()), what + ': mask has missing entries')
    got = {t: bool(v) for t, v in mask.items()}
    for t, w in zip(index, want):
        require(t in got, f'{what}: mask lacks {t}')
        require(got[t] == w, f'{what}: point {t}: got {got[t]}, contract says {w}', components=components.loc[t], filters=names)
    for t in got:
        if t not in set(index):
            require(not got[t], f'{what}: {t} is not among the data but passes')
    require(sorted(components.columns) == sorted(names), what + ': components kept for inspection', got=list(components.columns),
            want=sorted(names))
    for nm, c in comps.items():
        for t in c.index:
            require(bool(components[nm][t]) == bool(c[t]), f'{what}: component {nm} at {t}', got=components[nm][t], want=c[t])


def run_filter(ta, en, case):
    private(TrendAnalysis, '_filter')(ta, en, case)
    return getattr(ta, case + '_filter'), getattr(ta, case + '_filter_components')


def quiet(f, *a, **k):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@check('C20', 60)
def point_filters(g):
    ix, pv, poa, tc, cs, tcs = inputs(g)
    case = g.choice('sensor', 'clearsky')
    pin = g.choice('power', 'power', 'energy')
    ta = must(TrendAnalysis, pv, poa_global=poa, temperature_cell=tc, pv_input=pin, gamma_pdc=-0.003)
    must(ta.set_clearsky, pvlib_location=LOC, poa_global_clearsky=cs, temperature_cell_clearsky=tcs)
    e = ta.pv_energy
    sub = e.index if g.p(0.7) else e.index[1:-2]
    en = pd.Series([g.choice(NAN, 0.005, 0.3, 0.6, 0.9, 1.0, 1.2, INF, 0.01) for _ in sub], sub)
    params = point_params(g, case, en)
    if pin == 'energy':
        params.pop('clip_filter', None)
    present, ah = adhoc(g, sub)
    d = dict(params)
    if present:
        d['ad_hoc_filter'] = ah
    if g.p(0.5):
        def setit():
            ta.filter_params = d
        must(quiet, setit)
    else:
        ta.filter_params.clear()
        for k in d:
            ta.filter_params[k] = d[k]
    ip, ie = pv.index, e.index
    M = {'poa': N.interpolate(poa, ip), 'cs': N.interpolate(cs, ie), 'tc': N.interpolate(tc, ip), 'tcs': N.interpolate(tcs, ie)}
    P, T = (M['poa'], M['tc']) if case == 'sensor' else (M['cs'], M['tcs'])
    calls = dict(normalized_filter=lambda k: F.normalized_filter(en, **k), poa_filter=lambda k: F.poa_filter(P, **k),
                 tcell_filter=lambda k: F.tcell_filter(T, **k), clip_filter=lambda k: F.clip_filter(pv, **k),
                 hour_angle_filter=lambda k: F.hour_angle_filter(en, LOC.latitude, LOC.longitude, **k),
                 clearsky_filter=lambda k: F.clearsky_filter(M['poa'], M['cs'], **k),
                 sensor_clearsky_filter=lambda k: F.clearsky_filter(M['poa'], M['cs'], **k))
    comps = {}
    for k, v in params.items():
        if k == 'clearsky_filter' and case == 'sensor':
            continue
        try:
            comps[k] = calls[k](v)
        except Exception:
            raise Skip()
    snap = Snapshot(en=en, params={k: v for k, v in d.items() if k != 'ad_hoc_filter'}, adhoc=ah, pv=pv, poa=poa, tc=tc, cs=cs, tcs=tcs)
    mask, components = must(run_filter, ta, en, case)
    snap.verify('filters')
    want = combine(en.index, list(comps.values()), ah)
    names = list(comps) + (['ad_hoc_filter'] if ah is not None else [])
    verify(mask, components, en.index, want, comps, ah, names, f'{case} point filter')


@check('C20', 50)
def aggregated_filters(g):
    n = g.int(20, 120)
    ix = pd.date_range(pd.Timestamp('2020-02-20', tz=g.choice(None, 'UTC', 'Etc/GMT+7')), periods=n, freq=g.choice('D', '7D', '2D'))
    case = g.choice('sensor', 'clearsky')
    agg = pd.Series([g.choice(1.0, 0.99, 1.01, 0.9, 0.4, 2.0, 0.98, 1.02, NAN) for _ in ix], ix)
    ins = pd.Series(g.values(n, 100, 5000, nan=0.05), ix)
    oth = pd.Series(g.values(n, 100, 5000, nan=0.05), ix)
    pv = pd.Series(1.0, pd.date_range('2020-01-01', periods=5, freq='1h'))
    ta = must(TrendAnalysis, pv)
    setattr(ta, case + '_aggregated_insolation', ins)
    setattr(ta, ('clearsky' if case == 'sensor' else 'sensor') + '_aggregated_insolation', oth)
    opt = dict(two_way_window_filter=lambda: g.choice({}, dict(outlier_threshold=0.1), dict(roll_period=pd.Timedelta('20D'))),
               insolation_filter=lambda: g.choice({}, dict(quantile=0.4)),
               hampel_filter=lambda: g.choice({}, dict(t0=1), dict(k='30d')),
               directional_tukey_filter=lambda: g.choice({}, dict(k=0.5), dict(roll_period=pd.Timedelta('30D'))))
    params = {k: f() for k, f in opt.items() if g.p(0.5)}
    present, ah = adhoc(g, ix)
    d = dict(params)
    if present:
        d['ad_hoc_filter'] = ah

    def setit():
        ta.filter_params_aggregated = d
    must(quiet, setit)
    calls = {k: getattr(F, k) for k in opt}
    comps = {k: calls[k](ins if k == 'insolation_filter' else agg, **v) for k, v in params.items()}
    snap = Snapshot(agg=agg, ins=ins, adhoc=ah)
    must(private(TrendAnalysis, '_aggregated_filter'), ta, agg, case)
    snap.verify('aggregated filters')
    mask = getattr(ta, case + '_filter_aggregated')
    components = getattr(ta, case + '_filter_components_aggregated')
    want = combine(ix, list(comps.values()), ah)
    names = list(comps) + (['ad_hoc_filter'] if ah is not None else [])
    verify(mask, components, ix, want, comps, ah, names, f'{case} aggregated filter')


@check('C20', 10)
def missing_data(g):
    """an enabled filter whose data is missing raises"""
    ix, pv, poa, tc, cs, tcs = inputs(g, n=40)
    f = private(TrendAnalysis, '_filter')
    en = pd.Series(1.0, ix)
    which = g.choice('poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter')
    ta = must(TrendAnalysis, pv, pv_input='energy')
    ta.filter_params.clear()
    ta.filter_params[which] = {}
    must_raise(ValueError, f, ta, en, 'sensor')
