from vc.api import *

P = 'C20'
ASSUME = ['the filter functions through their contracts (C04-C06): any mask on any labels', 'pandas: DataFrame from a dict of series joins '
          'their indexes (outer), missing entries NaN']
CALLS = {}
POINT = ['normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter']
AGG = ['two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter']


def mask(name, aligned=False):
    ix = sym_index(name, dom=aligned._dom) if aligned else sym_index(name)
    return sym_series(name, ix, kind='b', owner=False)


DATA = {'normalized_filter': ('energy_normalized',), 'poa_filter': ('poa_global',), 'tcell_filter': ('temperature_cell',),
        'clip_filter': ('power_ac',), 'hour_angle_filter': ('series', 'lat', 'lon'),
        'clearsky_filter': ('poa_global_measured', 'poa_global_clearsky'), 'two_way_window_filter': ('series',),
        'insolation_filter': ('insolation',), 'hampel_filter': ('series',), 'directional_tukey_filter': ('series',)}


def stub(name):
    def f(*args, **kw):
        args += tuple(kw.pop(k) for k in DATA[name][len(args):] if k in kw)     # data passed by keyword
        m = mask(name)
        CALLS.setdefault(name, []).append((args, kw, m))
        return m
    return f


OVER = {'filtering.' + n: stub(n) for n in POINT + AGG + ['clearsky_filter']}


class Loc:
    pass


def analysis(u):
    CALLS.clear()
    ta = object.__new__(u.analysis_chains.TrendAnalysis)
    ta.pv_power, ta.poa_global, ta.temperature_cell = sym_series('power'), sym_series('poa'), sym_series('tcell')
    ta.poa_global_clearsky, ta.temperature_cell_clearsky = sym_series('poa_cs'), sym_series('tcell_cs')
    ta.pvlib_location = Loc()
    ta.pvlib_location.latitude, ta.pvlib_location.longitude = sym_float('lat'), sym_float('lon')
    return ta


def opts(name):
    o = sym_float('option_' + name)
    return {'option': o}


def same_series(a, b, t):
    if not isinstance(a, Series) or not isinstance(b, Series):
        return False
    if a is b:
        return True
    return And(Iff(a._dom.mem(t), b._dom.mem(t)), Implies(a._dom.mem(t), same(a._cell(t), b._cell(t))))


def check_calls(expected, t):
    """every enabled filter was applied, to the right data with its configured options; no other was"""
    for name, calls in CALLS.items():
        ensure(f'{name}:only if enabled', name in expected)
    for name, (args, kws) in expected.items():
        calls = CALLS.get(name, [])
        ensure(f'{name}:applied', len(calls) == len(kws))
        for (a, k, m), kw in zip(calls, kws):
            ensure(f'{name}:options', set(k) == set(kw) and all(k[x] is kw[x] for x in kw))
            ensure(f'{name}:data', len(a) == len(args) and And(*[same_series(x, y, t) if isinstance(y, Series) else same(x, y)
                                                                 for x, y in zip(a, args)]))


def adhoc(kind, ix):
    if kind == 'absent' or kind == 'none':
        return None
    if kind == 'aligned':
        return sym_series('adhoc', ix, kind='b', owner='adhoc')
    if kind == 'with missing':
        return sym_series('adhoc', sym_index('adhoc', owner='adhoc'), kind='ob')
    return sym_series('adhoc', sym_index('adhoc', owner='adhoc'), kind='b')


def kept_by_adhoc(h, t):
    if h is None:
        return True
    v = h._cell(t)
    ok = And(Not(v.nan), v.b) if isinstance(v, SOB) else v.b
    return Or(Not(h._dom.mem(t)), ok)


def verdict(result, comps, names, masks, en, h, t):
    m = [x for x in masks]
    inn = Or(en._dom.mem(t), *[x._dom.mem(t) for x in m])
    ensure('mask:index', Iff(result._dom.mem(t), inn))
    ok = And(en._dom.mem(t), *[And(x._dom.mem(t), x._cell(t).b) for x in m], kept_by_adhoc(h, t))
    v = boolcell(result._cell(t))
    ensure('mask:boolean', v is not None)
    ensure('mask:value', Implies(inn, Iff(v, ok)))
    want = list(names) + (['ad_hoc_filter'] if h is not None else [])
    ensure('components:names', sorted(comps.columns) == sorted(want))
    ensure('components:index', Iff(comps._dom.mem(t), inn))
    for n, x in zip(names, m):
        ensure(f'components:{n}', Implies(inn, Iff(truthy(comps[n]._cell(t)), And(x._dom.mem(t), x._cell(t).b))))
    if h is not None:
        ensure('components:ad_hoc_filter', Implies(inn, Iff(truthy(comps['ad_hoc_filter']._cell(t)), kept_by_adhoc(h, t))))


for CASE in ('sensor', 'clearsky'):
    for HOC in ('absent', 'none', 'aligned', 'own labels', 'with missing'):
        @contract(P, f'_filter, {CASE}, ad hoc filter {HOC}', ['analysis_chains.TrendAnalysis._filter'], assumptions=ASSUME, overrides=OVER)
        def _(u, CASE=CASE, HOC=HOC):
            ta = analysis(u)
            en = sym_series('en')
            # every subset of filters is covered without an ad hoc filter, the subsets of size 0, 1 and all with one
            cfg = {}
            cand = POINT + ['sensor_clearsky_filter']
            if HOC == 'absent':
                on = [n for n in cand if fork('enable ' + n, True, False)]
            else:
                on = fork('enabled', [], cand, *[[n] for n in cand[:2]])
            for n in on:
                cfg[n] = opts(n)
            if CASE == 'clearsky':
                cfg['clearsky_filter'] = opts('clearsky_filter')
            elif fork('clearsky_filter configured', True, False):
                cfg['clearsky_filter'] = opts('clearsky_filter')
            h = adhoc(HOC, en.index)
            if HOC != 'absent':
                cfg['ad_hoc_filter'] = h
            if HOC == 'aligned' and on:
                # a mask aligned with the joined index is only certain when no other mask extends it
                return
            ta._filter_params = cfg
            ta._filter(en, CASE)
            unchanged()
            t = label()
            poa = ta.poa_global if CASE == 'sensor' else ta.poa_global_clearsky
            tc = ta.temperature_cell if CASE == 'sensor' else ta.temperature_cell_clearsky
            data = {'normalized_filter': (en,), 'poa_filter': (poa,), 'tcell_filter': (tc,), 'clip_filter': (ta.pv_power,),
                    'hour_angle_filter': (en, ta.pvlib_location.latitude, ta.pvlib_location.longitude)}
            exp = {n: (data[n], [cfg[n]]) for n in on if n in data}
            cs = ([cfg['clearsky_filter']] if CASE == 'clearsky' else []) + ([cfg['sensor_clearsky_filter']] if 'sensor_clearsky_filter' in on else [])
            if cs:
                exp['clearsky_filter'] = ((ta.poa_global, ta.poa_global_clearsky), cs)
            check_calls(exp, t)
            names = [n for n in on if n in data]
            masks = [CALLS[n][0][2] for n in names]
            csm = [c[2] for c in CALLS.get('clearsky_filter', [])]
            csn = (['clearsky_filter'] if CASE == 'clearsky' else []) + (['sensor_clearsky_filter'] if 'sensor_clearsky_filter' in on else [])
            if CASE == 'sensor':
                verdict(ta.sensor_filter, ta.sensor_filter_components, names + csn, masks + csm, en, h, t)
            else:
                verdict(ta.clearsky_filter, ta.clearsky_filter_components, names + csn, masks + csm, en, h, t)

        @contract(P, f'_aggregated_filter, {CASE}, ad hoc filter {HOC}', ['analysis_chains.TrendAnalysis._aggregated_filter'],
                  assumptions=ASSUME, overrides=OVER)
        def _(u, CASE=CASE, HOC=HOC):
            ta = analysis(u)
            ag = sym_series('aggregated')
            ta.sensor_aggregated_insolation, ta.clearsky_aggregated_insolation = sym_series('ins'), sym_series('ins_cs')
            ins = ta.sensor_aggregated_insolation if CASE == 'sensor' else ta.clearsky_aggregated_insolation
            cfg = {}
            if HOC == 'absent':
                on = [n for n in AGG if fork('enable ' + n, True, False)]
            else:
                on = fork('enabled', [], AGG, *[[n] for n in AGG[:2]])
            for n in on:
                cfg[n] = opts(n)
            h = adhoc(HOC, ag.index)
            if HOC != 'absent':
                cfg['ad_hoc_filter'] = h
            if HOC == 'aligned' and on:
                return
            ta._filter_params_aggregated = cfg
            ta._aggregated_filter(ag, CASE)
            unchanged()
            t = label()
            exp = {n: ((ins if n == 'insolation_filter' else ag,), [cfg[n]]) for n in on}
            check_calls(exp, t)
            masks = [CALLS[n][0][2] for n in on]
            if CASE == 'sensor':
                verdict(ta.sensor_filter_aggregated, ta.sensor_filter_components_aggregated, on, masks, ag, h, t)
            else:
                verdict(ta.clearsky_filter_aggregated, ta.clearsky_filter_components_aggregated, on, masks, ag, h, t)
