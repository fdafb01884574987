from base import *
from c01 import valid, expected
from c02 import energies
from rdtools.normalization import normalize_with_expected_power, normalize_with_pvwatts, pvwatts_dc_power


def efp(s, f):
    if not valid(s):
        raise Skip
    w = energies(s, f, None, 'right_labeled')
    return {t: v for t, v in w.items()}


def mean_step(times, freq_ns=None):
    return freq_ns if freq_ns is not None else (times[-1] - times[0]) / (len(times) - 1)


def contract(pv, pe, poa, f, kind):
    energy = efp(pv, f) if kind == 'power' else {int(t): float(v) for t, v in zip(pv.index.asi8, pv.values)}
    et = sorted(energy)
    if len(et) < 2:
        raise Skip
    pt = [int(t) for t in pe.index.asi8]
    if mean_step(pt) > mean_step(et) * (1 + 1e-12):
        if len(valid(pe)) < 2 or len(valid(poa)) < 2:
            raise Skip
        pe = pd.Series(expected(pe, pv.index, None), pv.index)
        poa = pd.Series(expected(poa, pv.index, None), pv.index)
    elif mean_step(pt) > mean_step(et) * (1 - 1e-12):
        pass
    ee, ins = efp(pe, f), efp(poa, f)
    keys = sorted(set(energy) | set(ee) | set(ins))
    en = []
    for k in keys:
        a, b = energy.get(k, NAN), ee.get(k, NAN)
        if a != a or b != b:
            en.append(NAN)
        elif b == 0:
            en.append(NAN if a == 0 else (INF if a > 0 else -INF))
        else:
            en.append(a / b)
    return keys, en, [ins.get(k, NAN) for k in keys]


def gen(g):
    tz = g.choice(None, 'UTC', 'Asia/Kolkata', 'Etc/GMT+7')
    step = g.choice(60, 900, 3600)
    n = g.int(4, 14)
    st = g.start(tz)
    ix = pd.date_range(st, periods=n, freq=f'{step}s')
    pv = pd.Series(g.values(n, 0, 100, nan=g.choice(0, 0.15)), ix, name='pv')
    ratio = g.choice(1, 1, 1, 2, 3, 0.5, 0.25)
    ms = int(step * ratio)
    m = int(n / ratio) + g.int(-1, 2)
    off = g.choice(0, 0, 0, ms, -ms) if ratio < 1 or g.p(0.7) else g.choice(0, ms // 2)
    mix = pd.date_range(st + pd.Timedelta(seconds=off), periods=max(m, 3), freq=f'{ms}s')
    pe = pd.Series(g.values(len(mix), 0, 100, nan=g.choice(0, 0.15), special=(0.0,)), mix)
    poa = pd.Series(g.values(len(mix), 0, 1000, nan=g.choice(0, 0.15)), mix, name='poa')
    if g.p(0.5):
        pv.index.freq = None
    if g.p(0.5):
        pe.index.freq = None
    if not valid(pv) or not valid(pe) or not valid(poa):
        raise Skip
    return pv, pe, poa, step * 10**9


def compare(out, want, msg, **data):
    require(isinstance(out, tuple) and len(out) == 2, msg + ': two results expected')
    en, ins = out
    keys, wen, wins = want
    for nm, s, w in (('energy_normalized', en, wen), ('insolation', ins, wins)):
        got = [int(t) for t in s.index.asi8]
        require(got == keys, f'{msg}: {nm} index', got=got, want=keys, **data)
        same_values(s.values, w, f'{msg}: {nm}', rtol=1e-6, atol=1e-7, **data)


@check('C03', 140)
def expected_power(g):
    pv, pe, poa, f = gen(g)
    kind = g.choice('power', 'energy')
    want = contract(pv, pe, poa, f, kind)
    snap = Snapshot(pv=pv, pe=pe, poa=poa)
    out = must(normalize_with_expected_power, pv, pe, poa) if kind == 'power' and g.p(0.5) else \
        must(normalize_with_expected_power, pv, pe, poa, pv_input=kind)
    snap.verify('normalize_with_expected_power')
    compare(out, want, 'normalize_with_expected_power', pv=pv, power_expected=pe, poa=poa, kind=kind)


@check('C03', 60)
def pvwatts(g):
    pv, pe, poa, f = gen(g)
    kw = dict(poa_global=poa, power_dc_rated=g.dyadic(1, 50))
    tc = pd.Series(g.values(len(poa), -10, 70, nan=g.choice(0, 0.1)), poa.index)
    if g.p(0.7):
        kw['temperature_cell'] = tc
    if g.p(0.7):
        kw['gamma_pdc'] = g.choice(-0.005, 0.0, -0.25)
    if g.p(0.4):
        kw['poa_global_ref'] = g.choice(800, 1000.0, 500)
    if g.p(0.4):
        kw['temperature_cell_ref'] = g.choice(20, 0, 25)
    pdc = dc_oracle(**kw)
    snap = Snapshot(pv=pv, poa=poa, tc=tc, kw=kw)
    want = contract(pv, pdc, poa, f, 'energy')
    compare(must(normalize_with_pvwatts, pv, kw), want, 'normalize_with_pvwatts', energy=pv, kws=kw)
    snap.verify('normalize_with_pvwatts')


def dc_oracle(poa_global, power_dc_rated, temperature_cell=None, poa_global_ref=1000, temperature_cell_ref=25, gamma_pdc=None):
    out = []
    for i, p in enumerate(poa_global.values):
        v = power_dc_rated * p / poa_global_ref
        if temperature_cell is not None and gamma_pdc is not None:
            v = v * (1 + gamma_pdc * (temperature_cell.values[i] - temperature_cell_ref))
        out.append(v)
    return pd.Series(out, poa_global.index)


@check('C03', 60)
def dc_power(g):
    ix = g.times(g.int(1, 8))
    poa = pd.Series(g.values(len(ix), 0, 1200), ix)
    kw = dict(power_dc_rated=g.dyadic(0, 50))
    if g.p(0.7):
        kw['temperature_cell'] = pd.Series(g.values(len(ix), -10, 70), ix)
    if g.p(0.7):
        kw['gamma_pdc'] = g.choice(-0.005, 0, 0.25)
    if g.p(0.4):
        kw['poa_global_ref'] = g.choice(800, 1000.0, 500)
    if g.p(0.4):
        kw['temperature_cell_ref'] = g.choice(20, 0, 25)
    out = must(pvwatts_dc_power, poa, **kw)
    same_labels(out.index, ix, 'pvwatts_dc_power')
    same_values(out.values, dc_oracle(poa, **kw).values, 'pvwatts_dc_power', kw=kw, poa=poa)


@check('C03', 25)
def rejects(g):
    pv, pe, poa, f = gen(g)
    must_raise(ValueError, normalize_with_expected_power, pv, pe, poa, pv_input=g.choice('current', 'Power', ''))
    if len(pv) < 5:
        raise Skip
    irr = pv.drop(pv.index[g.int(1, len(pv) - 2)])
    k = g.choice('power', 'energy')
    if not valid(irr):
        raise Skip
    must_raise(ValueError, normalize_with_expected_power, irr, pe, poa, pv_input=k)
    must_raise(ValueError, normalize_with_pvwatts, irr, dict(poa_global=poa, power_dc_rated=1))
