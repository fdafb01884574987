from vc.api import *
from contracts.c01 import gap_series
P = 'C03'
HOUR = 3600 * 10**9


def EFP(power, target_frequency=None, max_timedelta=None, power_type='right_labeled'):
    """callee contract of energy_from_power (property C02): a function of the power, the frequency and the options"""
    return opaque_series('energy_from_power', [target_frequency, max_timedelta, power_type], [power], tz=power.index.tz,
                         name='energy_Wh')


def INTERP(time_series, target, max_timedelta=None, warning_threshold=0.1):
    """callee contract of interpolate (property C01)"""
    return opaque_series('interpolate', [max_timedelta], [time_series, target], index=target, name=time_series.name)


def mean_step(s):
    """mean step between consecutive labels, in hours"""
    if s.index.freq is not None:
        # the mean of the constant step
        return Series._mk(s.index, memo_cell(lambda t: SF.of(s.index.freq.nanos) / HOUR)).mean()
    g = gap_series(s._dom)
    h = Series._mk(s.index, memo_cell(lambda t: g._cell(t) / HOUR))
    return h.mean()


def DELTA(series):
    return None, mean_step(series)


def num_inputs():
    return sym_series('poa', tz='TZA')


@contract(P, 'pvwatts_dc_power', ['normalization.pvwatts_dc_power'])
def _(u):
    ix = sym_index('ix', tz='TZA', owner='ix')
    poa = sym_series('poa', ix)
    tc = fork('temperature', None, sym_series('tcell', ix))
    rated = sym_float('rated')
    ref, tref = sym_float('ref'), sym_float('tref')
    assume(ref.r > 0)
    gamma = fork('gamma', None, sym_float('gamma'))
    kw = {}
    defaults = fork('defaults', True, False)
    if not defaults:
        kw = dict(poa_global_ref=ref, temperature_cell_ref=tref)
    else:
        ref, tref = SF.of(1000), SF.of(25)
    if tc is not None:
        kw['temperature_cell'] = tc
    if gamma is not None:
        kw['gamma_pdc'] = gamma
    out = u.normalization.pvwatts_dc_power(poa, rated, **kw)
    t = label()
    want = rated * poa._cell(t) / ref
    if tc is not None and gamma is not None:
        want = want * (1 + gamma * (tc._cell(t) - tref))
    same_index(out, ix, t, 'index')
    ensure('value', Implies(ix._dom.mem(t), same(out._cell(t), want)))
    unchanged()


@contract(P, '_check_series_frequency', ['normalization._check_series_frequency'])
def _(u):
    F = Freq('F')
    has = fork('has freq', True, False)
    s = sym_series('pv', tz='TZA', freq=F if has else None)
    inf = infer_freq(s.index) if not has else F
    if inf is None:
        ensure('irregular-series-raises-ValueError',
               raises(ValueError, lambda: u.normalization._check_series_frequency(s, 'pv'))[0])
    else:
        ensure('frequency-of-the-series', same(u.normalization._check_series_frequency(s, 'pv'), inf))
    unchanged()


@contract(P, '_delta_index: mean step', ['normalization._delta_index'])
def _(u):
    F = Freq('F')
    has = fork('has freq', True, False)
    s = sym_series('x', tz='TZA', nonempty=True, freq=F if has else None)
    out = u.normalization._delta_index(s)
    ensure('mean-step-in-hours', same(out[1], mean_step(s)))
    unchanged()


FREQ = {}


def CHECKFREQ(series, description):
    """callee contract of _check_series_frequency"""
    if series.index.freq is not None:
        return series.index.freq
    f = infer_freq(series.index)
    if f is None:
        raise ValueError('irregular')
    return f


CALLEES = {'normalization.energy_from_power': EFP, 'normalization.interpolate': INTERP, 'normalization._delta_index': DELTA,
           'normalization._check_series_frequency': CHECKFREQ}


def normal_spec(pv, pe, poa, freq, kind):
    energy = EFP(pv, freq, power_type='right_labeled') if kind == 'power' else pv
    if bool(mean_step(pe) > mean_step(energy)):
        pe, poa = INTERP(pe, pv.index), INTERP(poa, pv.index)
    ee = EFP(pe, freq, power_type='right_labeled')
    ins = EFP(poa, freq, power_type='right_labeled')
    return energy, ee, ins


def check_result(out, pv, pe, poa, freq, kind):
    energy, ee, ins = normal_spec(pv, pe, poa, freq, kind)
    en, insol = out
    t = label()
    ind = Or(energy._dom.mem(t), ee._dom.mem(t), ins._dom.mem(t))
    ensure('normalized-covers-every-timestamp', Iff(en._dom.mem(t), ind))
    ensure('insolation-covers-every-timestamp', Iff(insol._dom.mem(t), ind))
    nan = SF.of(float('nan'))
    e = ite(And(energy._dom.mem(t), ee._dom.mem(t)), energy._cell(t) / ee._cell(t), nan)
    ensure('measured-over-expected', Implies(ind, same(en._cell(t), e)))
    ensure('insolation-of-the-irradiance', Implies(ind, same(insol._cell(t), ite(ins._dom.mem(t), ins._cell(t), nan))))
    unchanged()


@contract(P, 'normalize_with_expected_power', ['normalization.normalize_with_expected_power'], overrides=CALLEES,
          assumptions=['energy_from_power and interpolate by their contracts (C01, C02)'])
def _(u):
    F = Freq('F')
    has = fork('has freq', True, False)
    pv = sym_series('pv', tz='TZA', freq=F if has else None)
    pe = sym_series('expected', tz='TZA')
    poa = sym_series('poa', tz='TZA')
    kind = fork('input', 'power', 'default', 'energy', 'other')
    N = u.normalization.normalize_with_expected_power
    freq = None
    try:
        freq = CHECKFREQ(pv, '')
    except ValueError:
        ensure('irregular-measurements-raise-ValueError', raises(ValueError, lambda: N(pv, pe, poa))[0])
        return
    if kind == 'other':
        ensure('unknown-input-type-raises-ValueError', raises(ValueError, lambda: N(pv, pe, poa, pv_input='current'))[0])
        return
    out = N(pv, pe, poa) if kind == 'default' else N(pv, pe, poa, pv_input=kind)
    check_result(out, pv, pe, poa, freq, 'power' if kind == 'default' else kind)


def NWEP(pv, power_expected, poa_global, pv_input='power'):
    CALLS.append((pv, power_expected, poa_global, pv_input))
    return 'EN', 'INS'


CALLS = []


@contract(P, 'normalize_with_pvwatts', ['normalization.normalize_with_pvwatts', 'normalization.pvwatts_dc_power'],
          overrides={'normalization.normalize_with_expected_power': NWEP},
          assumptions=['normalize_with_expected_power by its contract'])
def _(u):
    CALLS.clear()
    ix = sym_index('ix', tz='TZA', owner='ix')
    poa, tc = sym_series('poa', ix), sym_series('tcell', ix)
    energy = sym_series('energy', tz='TZA')
    rated, gamma = sym_float('rated'), sym_float('gamma')
    out = u.normalization.normalize_with_pvwatts(energy, dict(poa_global=poa, power_dc_rated=rated, temperature_cell=tc,
                                                              gamma_pdc=gamma))
    ensure('one-normalization', len(CALLS) == 1)
    pv, pe, ir, kind = CALLS[0]
    t = label()
    same_index(pe, ix, t, 'expected-power:index')
    ensure('expected-power', Implies(ix._dom.mem(t), same(
        pe._cell(t), rated * poa._cell(t) / 1000 * (1 + gamma * (tc._cell(t) - 25)))))
    ensure('energy-given', And(same(pv._cell(t), energy._cell(t)), Iff(pv._dom.mem(t), energy._dom.mem(t))))
    ensure('irradiance-given', And(same(ir._cell(t), poa._cell(t)), Iff(ir._dom.mem(t), ix._dom.mem(t))))
    ensure('as-energy', kind == 'energy')
    ensure('returns-both', tuple(out) == ('EN', 'INS'))
    unchanged()
