"""planted bugs: each written from a property's statement and the code"""
PLANTS = []


def plant(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant('c02-tail-gap', 'C02',
      [('normalization.py', "    t_diffs = t_diffs.reindex(union_index, method='bfill')\n",
        "    t_diffs = t_diffs.reindex(union_index, method='bfill', limit=1)\n")],
      'a long gap in the power that spans two or more target intervals',
      'only the last interval boundary in an over-long gap is masked, the others get energy',
      '''import pandas as pd, numpy as np
from rdtools.normalization import energy_from_power
ix = pd.date_range('2020-01-01', periods=17, freq='15min')
s = pd.Series(4.0, ix)
s.iloc[5:11] = np.nan
e = energy_from_power(s, '30min', pd.Timedelta('15min'))
assert e['2020-01-01 02:00':'2020-01-01 02:30'].isna().all(), e
''')

plant('c04-nan-bound', 'C04',
      [('filtering.py', "    return (energy_normalized > energy_normalized_low) & (\n        energy_normalized < energy_normalized_high\n    )",
        "    return ~(\n        (energy_normalized <= energy_normalized_low)\n        | (energy_normalized >= energy_normalized_high)\n    )")],
      'a missing (NaN) normalized energy',
      'NaN points pass the normalized filter',
      '''import pandas as pd, numpy as np
from rdtools.filtering import normalized_filter
s = pd.Series([0.5, np.nan, 0.001], pd.date_range('2020-01-01', periods=3))
assert list(normalized_filter(s)) == [True, False, False]
''')

plant('c25-robust-zero', 'C25',
      [('utilities.py', "    small = x.astype(float).fillna(0).quantile(q) / 1000\n    mdn =", "    small = x.astype(float).quantile(q) / 1000\n    mdn =")],
      'a series that is mostly missing, with small values near the threshold',
      'missing entries no longer count as zero for the threshold of the robust median',
      '''import pandas as pd
import numpy as np
from rdtools.utilities import robust_median
s = pd.Series([1.0, 1.0, 1.0, 2000.0] + [np.nan] * 60)
assert robust_median(s, 0.9) == 1.0, robust_median(s, 0.9)
''')

plant('c06-roll-30min', 'C06',
      [('filtering.py', '''            time_series_sampling_frequency < 30
''', '''            time_series_sampling_frequency <= 30
''')],
      'a single-axis tracking system sampled every 30 minutes',
      'the default number of rolling periods is 5 instead of 3, so short plateaus are not found',
      '''import numpy as np, pandas as pd
from rdtools.filtering import logic_clip_filter
ix = pd.date_range('2021-06-01', periods=48 * 6, freq='30min', tz='UTC')
h = ix.hour + ix.minute / 60
p = pd.Series(100 * np.clip(np.sin((h - 6) / 12 * np.pi), 0, None), ix)
p[(h >= 11) & (h <= 12.5)] = 95.0
p = p.where(p < 95.0, 95.0) + np.where((h > 8) & (h < 16) & ((h < 11) | (h > 12.5)), np.arange(len(ix)) % 3 * -4.0, 0)
a = logic_clip_filter(p, mounting_type='single_axis_tracking')
b = logic_clip_filter(p, mounting_type='single_axis_tracking', roll_periods=3)
assert (~b).any()
assert a.equals(b), (a != b).sum()
''')

plant('c08-tolerance', 'C08',
      [('degradation.py', "                       tolerance=pd.Timedelta('8D')\n", "                       tolerance=pd.Timedelta('9D')\n")],
      'points whose latest predecessor a calendar year before is between 8 and 9 days off',
      'points more than 8 days off are paired',
      '''import pandas as pd
from rdtools.degradation import degradation_year_on_year
d = [pd.Timestamp('2018-01-01') + pd.Timedelta(days=30 * k) for k in range(12)]
a = pd.DatetimeIndex(d)
b = a + pd.DateOffset(years=1)
c = b + pd.DateOffset(years=1) + pd.Timedelta('8D 12h')
c = c[:11]
ix = a.append(b).append(c)
s = pd.Series([1.0] * 12 + [0.99] * 12 + [0.5] * 11, ix).sort_index()
rd, ci, info = degradation_year_on_year(s)
v = info['YoY_values']
assert len(v) == 12 and (v > -5).all(), v
''')

plant('c13-gap-limit', 'C13',
      [('soiling.py', "        ffill = df['pi_norm'].ffill(limit=day_scale)\n", "        ffill = df['pi_norm'].ffill(limit=day_scale - 1)\n")],
      'an outage of exactly day_scale days',
      'a cleaning event is reported at the end of an outage that is not longer than day_scale',
      '''import numpy as np, pandas as pd
from rdtools.soiling import SRRAnalysis
ix = pd.date_range('2020-01-01', periods=200, tz='UTC')
pm = pd.Series(1 - 0.0005 * np.arange(200), ix)
pm.iloc[90:103] = np.nan
a = SRRAnalysis(pm, pd.Series(1.0, ix))
np.random.seed(1)
a.run(reps=3, clean_threshold=0.5)
assert len(a.result_df) == 1, a.result_df
''')

plant('c18-limit-negative', 'C18',
      [('availability.py', "            p_loss.loc[limit_exceeded] = loss.clip(lower=0)\n", "            p_loss.loc[limit_exceeded] = loss\n")],
      'system power above the stated limit while a subsystem is offline',
      'a negative loss is reported',
      '''import numpy as np, pandas as pd
from rdtools.availability import AvailabilityAnalysis
ix = pd.date_range('2020-01-01', periods=96 * 4, freq='15min')
h = ix.hour + ix.minute / 60
base = np.clip(np.sin((h - 6) / 12 * np.pi), 0, None)
sub = pd.DataFrame({'a': base * 10, 'b': base * 10.0, 'c': base * 10.0}, index=ix)
sub.loc['2020-01-02', 'c'] = 0
s = sub.sum(axis=1)
e = s.cumsum() / 4
a = AvailabilityAnalysis(s, sub, e, pd.Series(base * 30, ix))
a.run(power_system_limit=15.0)
assert (a.loss_subsystem >= 0).all(), a.loss_subsystem.min()
''')

plant('c19-net-meter', 'C19',
      [('availability.py', "        lower_limit = -0.05 * df_outages['energy_expected']  # Note the sign\n",
        "        lower_limit = -0.005 * df_outages['energy_expected']  # Note the sign\n")],
      'a net meter that falls by between 0.5% and 5% of the expected energy during a full outage',
      'a real outage is reported as unknown and its loss is missing',
      '''import numpy as np, pandas as pd
from rdtools.availability import AvailabilityAnalysis
ix = pd.date_range('2020-01-01', periods=96 * 40, freq='15min')
h = ix.hour + ix.minute / 60
base = np.where((h > 6.1) & (h < 17.9), np.sin((h - 6) / 12 * np.pi), 0) * (1 + 0.02 * np.sin(np.arange(len(ix)) / 500))
sub = pd.DataFrame({'a': base * 10, 'b': base * 10.0}, index=ix)
sub.loc['2020-01-20'] = 0
s = sub.sum(axis=1)
e = (s.cumsum() / 4)
exp = pd.Series(base * 20.0, ix)
day = exp['2020-01-20'].sum() / 4
drop = pd.Series(0.0, ix)
drop['2020-01-20'] = np.linspace(0, 0.02 * day, 96)
drop['2020-01-21':] = 0.02 * day
a = AvailabilityAnalysis(s, sub, e - drop, exp)
a.run()
o = a.outage_info
assert list(o.type) == ['real'], o.T
''')

plant('c24-subsystem-inplace', 'C24',
      [('availability.py', "        power_subsystem = power_subsystem.fillna(0)\n", "        power_subsystem.fillna(0, inplace=True)\n")],
      'subsystem power with missing values',
      "the caller's subsystem power has its missing values overwritten with zeros",
      '''import numpy as np, pandas as pd
from rdtools.availability import AvailabilityAnalysis
ix = pd.date_range('2020-01-01', periods=96 * 10, freq='15min')
h = ix.hour + ix.minute / 60
base = np.clip(np.sin((h - 6) / 12 * np.pi), 0, None)
sub = pd.DataFrame({'a': base * 10, 'b': base * 10.0}, index=ix)
s = sub.sum(axis=1)
sub.loc['2020-01-03', 'b'] = np.nan
keep = sub.copy()
a = AvailabilityAnalysis(s, sub, s.cumsum() / 4, pd.Series(base * 20.0, ix))
a.run()
pd.testing.assert_frame_equal(sub, keep)
''')


plant('c12-block-length', 'C12',
      [('degradation.py', "            sample_nr=reps, block_length=block_length)\n", "            sample_nr=reps)\n")],
      'a block length other than the default, with uncertainty_method circular_block',
      'the block length asked for is not used to resample the residuals',
      '''import numpy as np, pandas as pd
from arch.bootstrap import CircularBlockBootstrap as C
from rdtools.degradation import degradation_year_on_year
seen = []
init = C.__init__
def spy(self, block_size, *a, **k):
    seen.append(block_size)
    return init(self, block_size, *a, **k)
C.__init__ = spy
ix = pd.date_range('2018-01-01', periods=900)
s = pd.Series(1 + 0.05 * np.sin(np.arange(900) / 9.0) + 0.01 * np.cos(np.arange(900) * 1.7), ix)
degradation_year_on_year(s, uncertainty_method='circular_block', block_length=47)
assert seen and set(seen) == {47}, seen
''')

plant('c14-end-loss', 'C14',
      [('soiling.py', "                result_dict['inferred_end_loss'] = fit_poly(end_day)\n",
        "                result_dict['inferred_end_loss'] = fit_poly(run.day.iloc[-1])\n")],
      'a soiling interval whose last days are missing (rain at the end of a short outage)',
      'the inferred end loss is that of the last day with data, not of the end of the interval',
      '''import numpy as np, pandas as pd
from rdtools.soiling import SRRAnalysis
ix = pd.date_range('2020-01-01', periods=150, tz='UTC')
day = np.arange(150)
since = np.where(day < 70, day, day - 70)
pm = pd.Series(1 - 0.001 * since, ix)
pm.iloc[60:70] = np.nan
rain = pd.Series(0.0, ix)
rain.iloc[70] = 1.0
a = SRRAnalysis(pm, pd.Series(1.0, ix), precipitation_daily=rain)
np.random.seed(1)
a.run(reps=3, clean_criterion='precip', max_negative_step=1.0, recenter=False)
r = a.result_df
assert abs(r.inferred_end_loss.iloc[0] - (1 - 0.069)) < 1e-6, r.T
''')

plant('c16-partial-profile', 'C16',
      [('soiling.py', "    all_profiles = all_profiles.dropna()\n", "    all_profiles = all_profiles.dropna(how='all')\n")],
      'profiles that do not cover the same days',
      'days that some profiles lack are counted with their insolation',
      '''import numpy as np, pandas as pd
from rdtools.soiling import annual_soiling_ratios
ix = pd.date_range('2020-01-01', periods=300)
p = [pd.Series(0.9, ix[:200]), pd.Series(0.8, ix[100:200])]
r = annual_soiling_ratios(p, pd.Series(5.0, ix))
assert abs(r.soiling_ratio_median.iloc[0] - 0.85) < 1e-9, r
''')

plant('c20-nan-filter', 'C20',
      [('analysis_chains.py', '        filter_components = pd.DataFrame(filter_components).fillna(0).astype("bool")\n',
        '        filter_components = pd.DataFrame(filter_components).ffill().fillna(0).astype("bool")\n')],
      'a filtered input (such as irradiance) with no entry at the time of an energy point',
      'a point at which an enabled filter has no answer is analysed',
      '''import numpy as np, pandas as pd
from rdtools import TrendAnalysis
ix = pd.date_range('2020-06-01', periods=24, freq='1h', tz='UTC')
poa = pd.Series(500.0, ix)
ta = TrendAnalysis(poa * 1.0, poa_global=poa, temperature_cell=poa * 0 + 20, power_dc_rated=1.0)
ta.poa_global = ta.poa_global.drop(ta.poa_global.index[5])
ta.filter_params = {'normalized_filter': {}, 'poa_filter': {}}
en = pd.Series(1.0, ix)
ta._filter(en, 'sensor')
assert not ta.sensor_filter[ix[5]] and ta.sensor_filter[ix[6]], ta.sensor_filter
''')

plant('c21-interval-mean', 'C21',
      [('analysis_chains.py', '            interval_id = interval_id.reindex(times, method="backfill")\n',
        '            interval_id = interval_id.reindex(times, method="backfill", limit=30)\n')],
      'measured irradiance at intervals longer than half an hour',
      'the clear-sky irradiance of an interval is the mean of its last half hour only',
      '''import numpy as np, pandas as pd, pvlib
from rdtools import TrendAnalysis
ix = pd.date_range('2020-06-01', periods=24, freq='1h', tz='Etc/GMT+7')
loc = pvlib.location.Location(40, -105)
poa = pd.Series(500.0, ix)
ta = TrendAnalysis(poa * 1.0, poa_global=poa, power_dc_rated=1.0, interp_freq='1h')
ta.set_clearsky(pvlib_location=loc, pv_azimuth=180, pv_tilt=30)
ta._calc_clearsky_poa(rescale=False, model='isotropic')
t = pd.date_range(ix[0], ix[-1], freq='1min')
sun = loc.get_solarposition(t, method='nrel_numpy')
cs = loc.get_clearsky(t, solar_position=sun)
g = pvlib.irradiance.get_total_irradiance(30, 180, sun['apparent_zenith'], sun['azimuth'], cs['dni'], cs['ghi'], cs['dhi'],
                                          albedo=0.25, model='isotropic')['poa_global']
want = g['2020-06-01 08:01':'2020-06-01 09:00'].mean()
got = ta.poa_global_clearsky['2020-06-01 09:00:00-07:00']
assert abs(got - want) < 1, (got, want)
''')

plant('c01-dense-target', 'C01',
      [('normalization.py', "        df_valid['data'].interpolate(method='index')\n", "        df_valid['data'].interpolate(method='index', limit=100)\n")],
      'more than a hundred target times between two consecutive samples',
      'target times inside an allowed gap are NaN once the gap holds more than a hundred of them',
      '''import pandas as pd
from rdtools.normalization import interpolate
s = pd.Series([0.0, 1.0, 2.0], pd.date_range('2020-01-01', periods=3, freq='1h'))
t = pd.date_range('2020-01-01', '2020-01-01 02:00', freq='10s')
out = interpolate(s, t, pd.Timedelta('1h'))
assert out.notna().all(), out.isna().sum()
''')

plant('c07-epoch-bins', 'C07',
      [('aggregation.py', "    aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \\\n        insolation.resample(frequency, origin='start_day').sum()\n",
        "    aggregated = (insolation * energy_normalized).resample(frequency, origin='epoch').sum() / \\\n        insolation.resample(frequency, origin='epoch').sum()\n")],
      'an aggregation period of several days, such as one week',
      'periods are not counted from the start of the first day',
      '''import pandas as pd
from rdtools.aggregation import aggregation_insol
ix = pd.date_range('2020-01-01 05:00', periods=24 * 21, freq='1h')
out = aggregation_insol(pd.Series(1.0, ix), pd.Series(2.0, ix), '7D')
assert out.index[0] == pd.Timestamp('2020-01-01'), out.index
''')

plant('c09-half-year', 'C09',
      [('degradation.py', '''    has_full_year = (df["years"] >= df["years"].iloc[0] + 0.5) & (
        df["years"] <= df["years"].iloc[-1] - 0.5
''', '''    has_full_year = (df["years"] >= df["years"].iloc[0] + 0.5) & (
        df["years"] < df["years"].iloc[-1] - 0.5
''')],
      'a series with a point exactly half a year before the last one (12-hourly data)',
      'the last point with half a year of data on both sides is left out of the moving average and the fit',
      '''import pandas as pd, numpy as np
from rdtools.degradation import degradation_classical_decomposition
ix = pd.date_range('2020-01-01', periods=2 * 365 * 2 + 1, freq='12h')
s = pd.Series(1 - 0.01 * np.arange(len(ix)) / 730, ix)
ma = degradation_classical_decomposition(s)[2]['series'].dropna()
assert len(ma) == 731, len(ma)
''')

plant('c10-one-tie', 'C10',
      [('degradation.py', "    if n == g:\n", "    if n - g < 2:\n")],
      'a series with exactly one pair of equal values',
      'the variance of S is not corrected for the tie',
      '''import numpy as np
from rdtools.degradation import _mk_test
x = np.array([1.0, 2.0, 3.0, 3.0, 5.0, 4.0])
n, s = 6, 14 - 1
s = sum(np.sign(x[j] - x[i]) for i in range(6) for j in range(i + 1, 6))
var = (6 * 5 * 17 - 2 * 1 * 9) / 18
assert abs(_mk_test(x)[3] - (s - 1) / np.sqrt(var)) < 1e-9
''')

plant('c11-wide-level', 'C11',
      [('degradation.py', "    dist = sampled_normal[:, 1] / sampled_normal[:, 0]\n    half_ci = confidence_level / 2.0\n",
        "    dist = sampled_normal[:, 1] / sampled_normal[:, 0]\n    half_ci = min(confidence_level / 2.0, 49.5)\n")],
      'a confidence level above 99 percent',
      'the interval of the regression methods is the 99 percent interval',
      '''import numpy as np
from rdtools.degradation import _degradation_CI


class R:
    params = [1.0, 0.1]

    def cov_params(self):
        return np.array([[1e-4, 0], [0, 1e-4]])


np.random.seed(0)
a = _degradation_CI(R(), 99.9)
np.random.seed(0)
b = _degradation_CI(R(), 99.0)
assert a[0] < b[0] and a[1] > b[1], (a, b)
''')

plant('c17-shift-of-first', 'C17',
      [('soiling.py', "            self.residual_shift = results[np.argmax(weights)]['residual_shift']\n", "            self.residual_shift = results[0]['residual_shift']\n")],
      'a record with hardly any soiling, whose best fit is not the first',
      'the reported residual shift is not the one of the reported model',
      '''import numpy as np, pandas as pd, warnings
from rdtools.soiling import CODSAnalysis
warnings.simplefilter('ignore')
np.random.seed(3)
ix = pd.date_range('2018-01-01', periods=730, freq='D', tz='UTC')
t = np.arange(730)
pi = pd.Series((1 - 0.01 * t / 365) * (1 + 0.05 * np.sin(2 * np.pi * t / 365.25)) + np.random.normal(0, 0.02, 730), ix)
for seed in range(4):
    c = CODSAnalysis(pi)
    c.run_bootstrap(reps=1, soiling_significance=1e6, bootstrap_seed=seed) if False else None
    try:
        df = c.run_bootstrap(reps=16, soiling_significance=100.0)[0]
    except RuntimeError:
        continue
    m = df.soiling_ratio * df.seasonal_component * df.degradation_trend * c.residual_shift
    assert np.allclose(m, df.total_model, rtol=1e-12, atol=0), (m / df.total_model).iloc[0]
    break
''')

plant('c22-trusted-dict', 'C22',
      [('analysis_chains.py', "        self._filter_params = ValidatedFilterDict(self.valid_filter_params, new_filter_params)\n",
        "        if not isinstance(new_filter_params, ValidatedFilterDict):\n            new_filter_params = ValidatedFilterDict(self.valid_filter_params, new_filter_params)\n        self._filter_params = new_filter_params\n")],
      'assigning a filter dictionary that was validated against other names (the aggregated one)',
      'filter_params contains a key that is not one of its filter names',
      '''import pandas as pd
from rdtools.analysis_chains import TrendAnalysis
ix = pd.date_range('2020-01-01', periods=50, freq='1h', tz='UTC')
s = pd.Series(1.0, ix)
ta = TrendAnalysis(s, poa_global=s, temperature_cell=s, power_dc_rated=1.0)
ta.filter_params_aggregated = {'insolation_filter': {}}
try:
    ta.filter_params = ta.filter_params_aggregated
    ok = set(ta.filter_params) <= set(ta.valid_filter_params)
except KeyError:
    ok = True
assert ok, ta.filter_params
''')

plant('c26-relative', 'C26',
      [('normalization.py', "        while abs(factor - prev_factor) > convergence_threshold:\n", "        while abs(factor - prev_factor) > convergence_threshold * max(1.0, abs(factor)):\n")],
      'a modelled irradiance in kW/m2 against a measurement in W/m2 (a factor of about a thousand)',
      'the iteration stops while the factor still changes by more than the threshold',
      '''import numpy as np, pandas as pd
import rdtools.normalization as N
seen = []
real = N.minimize


def minimize(fun, x0, *a, **k):
    r = real(fun, x0, *a, **k)
    seen.append((float(np.ravel(x0)[0]), float(r['x'][0])))
    return r


N.minimize = minimize
bad = 0
for seed in range(8):
    g = np.random.default_rng(seed)
    n = 500
    sim = pd.Series(g.uniform(0.3, 1.0, n), pd.date_range('2020-01-01', periods=n, freq='1h'))
    irr = sim * 1000 * g.uniform(0.6, 1.1, n)
    del seen[:]
    try:
        N.irradiance_rescale(irr, sim, method='iterative', convergence_threshold=0.5)
    except N.ConvergenceError:
        continue
    if seen:
        bad = max(bad, abs(seen[-1][1] - seen[-1][0]))
assert bad <= 0.5, bad
''')

plant('c03-short-model', 'C03',
      [('normalization.py', "    if mean_model_td > mean_measure_td:\n", "    if len(power_expected) < len(pv):\n")],
      'an hourly model that covers a longer span than 15-minute measurements, so that it has more points',
      'the coarser model is not interpolated onto the measurement times before integration',
      '''import pandas as pd, numpy as np
from rdtools.normalization import normalize_with_expected_power
ix = pd.date_range('2020-01-01 06:00', periods=48, freq='15min')
mx = pd.date_range('2019-12-30', periods=100, freq='1h')
power = pd.Series(50.0, ix)
model = pd.Series(np.linspace(80.0, 120.0, 100), mx)
e, i = normalize_with_expected_power(power, model, model * 10)
want = 50.0 / np.interp(ix.asi8, mx.asi8, model.values)
assert np.allclose(e.loc[ix[2:]], want[2:], rtol=1e-9), (e.loc[ix].values[:8], want[:8])
''')

plant('c15-edge-level', 'C15',
      [('soiling.py', "                invalid_intervals['next_start'] = \\\n                    invalid_intervals['next_start'].fillna(1.0)\n",
        "                invalid_intervals['next_start'] = \\\n                    invalid_intervals['next_start'].fillna(invalid_intervals['previous_end'])\n")],
      'a record that ends in invalid intervals after a valid one',
      'the level of the invalid intervals at the end of the record is stuck at the end of the last valid interval, never up to 1',
      '''import numpy as np, pandas as pd
from rdtools.soiling import SRRAnalysis
ix = pd.date_range('2020-01-01', periods=40, freq='D')
s = SRRAnalysis(pd.Series(1.0, ix), pd.Series(1.0, ix))
s.result_df = pd.DataFrame(dict(run=[0, 1], start=[ix[0], ix[20]], end=[ix[19], ix[39]], length=[19, 19], valid=[True, False],
                                run_slope=[-0.01, 0], run_slope_low=[-0.01, 0], run_slope_high=[-0.01, 0],
                                inferred_recovery=[np.nan, np.nan]))
s.analyzed_daily_df = pd.DataFrame(dict(insol=1.0, run=np.repeat([0, 1], 20), valid=np.repeat([True, False], 20)), index=ix)
s.analyzed_daily_df.index.name = 'date'
np.random.seed(0)
s._calc_monte(50, method='random_clean')
assert max(p.iloc[25] for p in s.random_profiles) > 0.9
''')

plant('c23-one-offset', 'C23',
      [('clearsky_temperature.py', "    utc_offsets = [y.utcoffset().total_seconds() / 3600.0 for y in df.index]\n",
        "    utc_offsets = [df.index[0].utcoffset().total_seconds() / 3600.0] * len(df.index)\n")],
      'times on both sides of a daylight-saving change',
      'after the change the daily cosine peaks an hour off',
      '''import pandas as pd, numpy as np, h5py
import rdtools.clearsky_temperature as C
data = {'temperature': {'day': np.full((36, 18, 12), 30.0), 'night': np.full((36, 18, 12), 10.0)}}
h5py.File = C.h5py.File = lambda *a, **k: data
a = pd.date_range('2020-03-01', '2020-03-20', freq='1h', tz='America/Denver')
full = C.get_clearsky_tamb(a, 40.0, -105.0)
part = C.get_clearsky_tamb(a[a >= '2020-03-12'], 40.0, -105.0)
assert np.allclose(full.reindex(part.index), part)
''')

plant('c05-hampel-edge', 'C05',
      [('filtering.py', "    rolling_median = series.rolling(k, center=True, min_periods=1).median()\n    difference",
        "    rolling_median = series.rolling(k, center=True, min_periods=1, closed='both').median()\n    difference")],
      'a point whose window starts exactly on a sample that decides the median',
      'the rolling median of the Hampel filter takes in a point outside its window',
      '''import pandas as pd, numpy as np
from rdtools.filtering import hampel_filter
g = np.random.default_rng(0)
for _ in range(20):
    s = pd.Series(g.normal(1, 0.1, 60), pd.date_range('2020-01-01', periods=60))
    r = s.rolling('14d', center=True, min_periods=1).median()
    d = (r - s).abs()
    want = d <= 1.5 * 1.4826 * d.rolling('14d', center=True, min_periods=1).median()
    assert (hampel_filter(s, '14d', 1.5) == want).all()
''')
