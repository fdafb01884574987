from vc.api import *

P = 'C04'


def bound(name):
    return fork(name + '?', sym_float(name), float('inf'), -float('inf'))


@contract(P, 'normalized_filter', ['filtering.normalized_filter'])
def _(u):
    x = sym_series('energy', inf=True)
    lo = fork('lo none', None, sym_float('lo'))
    hi = fork('hi none', None, sym_float('hi'))
    which = fork('args', 'both', 'default')
    if which == 'default':
        m = u.filtering.normalized_filter(x)
        lo, hi = 0.01, None
    else:
        m = u.filtering.normalized_filter(x, lo, hi)

    def spec(t):
        v = x._cell(t)
        return And(Not(v.nan),
                   Not(v.ni) if lo is None else (v > lo).b,
                   Not(v.pi) if hi is None else (v < hi).b)
    ensure_mask('normalized', m, x.index, spec)
    unchanged()


@contract(P, 'poa_filter', ['filtering.poa_filter'])
def _(u):
    x = sym_series('poa', inf=True)
    if fork('default', True, False):
        lo, hi = 200, 1200
        m = u.filtering.poa_filter(x)
    else:
        lo, hi = sym_float('lo', inf=True), sym_float('hi', inf=True)
        m = u.filtering.poa_filter(x, lo, hi)
    ensure_mask('poa', m, x.index, lambda t: And(Not(x._cell(t).nan), (x._cell(t) > lo).b, (x._cell(t) < hi).b))
    unchanged()


@contract(P, 'tcell_filter', ['filtering.tcell_filter'])
def _(u):
    x = sym_series('tcell', inf=True)
    if fork('default', True, False):
        lo, hi = -50, 110
        m = u.filtering.tcell_filter(x)
    else:
        lo, hi = sym_float('lo', inf=True), sym_float('hi', inf=True)
        m = u.filtering.tcell_filter(x, lo, hi)
    ensure_mask('tcell', m, x.index, lambda t: And(Not(x._cell(t).nan), (x._cell(t) > lo).b, (x._cell(t) < hi).b))
    unchanged()


@contract(P, 'csi_filter', ['filtering.csi_filter'])
def _(u):
    ix = sym_index('i')
    a = sym_series('meas', ix)
    b = sym_series('clear', ix)
    if fork('default', True, False):
        th = 0.15
        m = u.filtering.csi_filter(a, b)
    else:
        th = sym_float('th', lo=0)
        m = u.filtering.csi_filter(a, b, th)
    th = SF.of(th)

    def spec(t):
        x, y = a._cell(t), b._cell(t)
        # |x/y - 1| <= th, x/y undefined or infinite never passes
        q = x / y
        return And(Not(x.nan), Not(y.nan), q.fin, (q >= SF.of(1) - th).b, (q <= SF.of(1) + th).b)
    ensure_mask('csi', m, ix, spec)
    unchanged()


@contract(P, 'insolation_filter', ['filtering.insolation_filter'])
def _(u):
    x = sym_series('insol')
    if fork('default', True, False):
        q = 0.1
        m = u.filtering.insolation_filter(x)
    else:
        q = sym_float('q', lo=0, hi=1)
        m = u.filtering.insolation_filter(x, q)
    lim = x.quantile(q)
    ensure_mask('insolation', m, x.index, lambda t: And(Not(x._cell(t).nan), (x._cell(t) >= lim).b))
    unchanged()


def rq_spec(x, q):
    """robust quantile by its own contract (proved under C25)"""
    def f(x_, q_):
        return opaque('robust_quantile', inputs=[(x_._dom.axis, x_._dom.mem, x_._cell)], args=[SF.of(q_)],
                      mk=lambda: SF.fresh('rq')).outs[0]
    return f(x, q)


@contract(P, 'quantile_clip_filter', ['filtering.quantile_clip_filter'],
          overrides={'utilities.robust_quantile': rq_spec})
def _(u):
    x = sym_series('power')
    if fork('default', True, False):
        q = 0.98
        m = u.filtering.quantile_clip_filter(x)
    else:
        q = sym_float('q', lo=0, hi=1)
        m = u.filtering.quantile_clip_filter(x, q)
    v = rq_spec(x, q)
    ensure_mask('quantile_clip', m, x.index, lambda t: And(Not(x._cell(t).nan), (x._cell(t) < v * 0.99).b))
    unchanged()


def solar_stub():
    def get_solarposition(times, lat, lon, **kw):
        if kw:
            raise Unsupported('solarposition options')
        cell = memo_cell(lambda t: opaque('spa.eot', params=[times.tz], args=[SF.of(lat), SF.of(lon), t],
                                          mk=lambda: SF.fresh('eot', nan=False)).outs[0])
        return DataFrame._mk(times, {'equation_of_time': cell})

    def hour_angle(times, lon, eot):
        c = eot._cell
        return Arr(times._dom, lambda t: opaque('hour_angle', params=[times.tz], args=[SF.of(lon), c(t), t],
                                                mk=lambda: SF.fresh('ha', nan=False)).outs[0])
    return Stub('pvlib', dict(solarposition=Stub('sp', dict(get_solarposition=get_solarposition,
                                                            hour_angle=hour_angle))))


@contract(P, 'hour_angle_filter', ['filtering.hour_angle_filter'], modules={'pvlib': solar_stub()},
          assumptions=['pvlib solar position and hour angle are functions of (time, lat, lon)'])
def _(u):
    x = sym_series('s')
    lat, lon = sym_float('lat'), sym_float('lon')
    if fork('default', True, False):
        lo, hi = -30, 30
        m = u.filtering.hour_angle_filter(x, lat, lon)
    else:
        lo, hi = sym_float('lo'), sym_float('hi')
        m = u.filtering.hour_angle_filter(x, lat, lon, lo, hi)
    pv = solar_stub()
    ha = pv.solarposition.hour_angle(x.index, lon,
                                     pv.solarposition.get_solarposition(x.index, lat, lon)['equation_of_time'])
    ensure_mask('hour_angle', m, x.index, lambda t: And((ha._cell(t) >= lo).b, (ha._cell(t) <= hi).b))
    unchanged()


def rec(tag):
    def f(*a, **k):
        ctx().keep.append((tag, a, k))
        return ('result', tag)
    return f


@contract(P, 'clearsky_filter dispatch', ['filtering.clearsky_filter'],
          overrides={'filtering.csi_filter': rec('csi'), 'filtering.pvlib_clearsky_filter': rec('pvlib')})
def _(u):
    a, b = sym_series('a'), sym_series('b')
    th = sym_float('th')
    which = fork('model', 'csi', 'pvlib', 'default', 'other')
    if which == 'other':
        r, e = raises(ValueError, lambda: u.filtering.clearsky_filter(a, b, model='unknown'))
        ensure('unknown-model-raises-ValueError', r)
        return
    kw = {} if which == 'default' else {'model': which}
    r = u.filtering.clearsky_filter(a, b, threshold=th, **kw)
    tag = 'pvlib' if which == 'default' else which
    calls = [k for k in ctx().keep if isinstance(k, tuple) and len(k) == 3 and k[0] in ('csi', 'pvlib')]
    ensure('dispatches-once-to-named-model', len(calls) == 1 and calls[0][0] == tag and r == ('result', tag))
    args = list(calls[0][1]) + [calls[0][2].get(n) for n in ('poa_global_measured', 'poa_global_clearsky')
                                if n in calls[0][2]]
    ensure('passes-both-series', len(args) == 2 and args[0] is a and args[1] is b)
    ensure('forwards-options', calls[0][2].get('threshold') is th)


@contract(P, 'clip_filter dispatch', ['filtering.clip_filter'],
          overrides={'filtering.quantile_clip_filter': rec('quantile'), 'filtering.xgboost_clip_filter': rec('xgboost'),
                     'filtering.logic_clip_filter': rec('logic')})
def _(u):
    a = sym_series('a')
    th = sym_float('th')
    which = fork('model', 'quantile', 'xgboost', 'logic', 'default', 'other')
    if which == 'other':
        r, e = raises(ValueError, lambda: u.filtering.clip_filter(a, model='unknown'))
        ensure('unknown-model-raises-ValueError', r)
        return
    kw = {} if which == 'default' else {'model': which}
    r = u.filtering.clip_filter(a, opt=th, **kw)
    tag = 'logic' if which == 'default' else which
    calls = [k for k in ctx().keep if isinstance(k, tuple) and len(k) == 3 and k[0] in ('quantile', 'xgboost', 'logic')]
    ensure('dispatches-once-to-named-model', len(calls) == 1 and calls[0][0] == tag and r == ('result', tag))
    args = list(calls[0][1]) + [calls[0][2].get('power_ac')] * ('power_ac' in calls[0][2])
    ensure('passes-series', len(args) == 1 and args[0] is a)
    ensure('forwards-options', calls[0][2].get('opt') is th)


def detect_stub():
    def detect(measured, clearsky, times=None, infer_limits=False, window_length=10, mean_diff=75, max_diff=75, lower_line_length=-5,
               upper_line_length=10, var_diff=0.005, slope_dev=8, max_iterations=20, return_components=False):
        ctx().keep.append(('detect', (measured, clearsky), dict(
            window_length=window_length, mean_diff=mean_diff, max_diff=max_diff, lower_line_length=lower_line_length,
            upper_line_length=upper_line_length, var_diff=var_diff, slope_dev=slope_dev, max_iterations=max_iterations,
            infer_limits=infer_limits, return_components=return_components)))
        return ('clear', measured)
    return Stub('pvlib', dict(clearsky=Stub('cs', dict(detect_clearsky=detect))))


@contract(P, 'pvlib_clearsky_filter options', ['filtering.pvlib_clearsky_filter'], modules={'pvlib': detect_stub()},
          assumptions=['pvlib.clearsky.detect_clearsky is a callee contract: series and options in, mask out'])
def _(u):
    ix = sym_index('ix')
    a, b = sym_series('a', ix), sym_series('b', ix)
    names = ['window_length', 'mean_diff', 'max_diff', 'lower_line_length', 'upper_line_length', 'var_diff', 'slope_dev', 'max_iterations']
    if fork('default', True, False):
        want = dict(zip(names, [90, 75, 75, -45, 80, 0.032, 75, 20]))
        r = u.filtering.pvlib_clearsky_filter(a, b)
    else:
        want = {k: sym_float(k) for k in names}
        r = u.filtering.pvlib_clearsky_filter(a, b, **want)
    calls = [k for k in ctx().keep if isinstance(k, tuple) and len(k) == 3 and k[0] == 'detect']
    if len(calls) != 1:
        raise Unsupported('pvlib.clearsky.detect_clearsky not called exactly once')
    _, (m, c), got = calls[0]
    for k, v in want.items():
        ensure('passes ' + k, same(SF.of(got[k]), SF.of(v)))
    ensure('single mask', got['return_components'] is False and got['infer_limits'] is False)
    t = label()
    for n, x, y in (('measured', m, a), ('clearsky', c, b)):
        ensure(n + ':labels', Iff(x._dom.mem(t), ix._dom.mem(t)))
        ensure(n + ':values', Implies(ix._dom.mem(t), same(SF.of(x._cell(t)), SF.of(y._cell(t)))))
    ensure("returns pvlib's mask", isinstance(r, tuple) and r[0] == 'clear' and r[1] is m)
    unchanged()
