"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

p('C01', 'Interpolation is linear in time and never bridges a gap longer than allowed',
  "Interpolating a time series (or each column of a frame) onto any target times returns, at every target time that coincides with a valid sample, exactly that sample; strictly between two consecutive valid samples no further apart than the maximum gap (given, or twice the median spacing of the valid samples), the straight-line-in-time value; and NaN inside longer gaps and before the first or after the last of the valid samples. The result is indexed exactly by the target times in the target's time zone, keeps the series name, and mixing time-zone-aware with naive data raises ValueError.",
  ['inputs', 'configurations'], "every sample set (any spacing, NaNs, time zones), every target index or frequency, every maximum gap",
  "Tests interpolate a handful of short fixed series; the gap rule, NaN placement and boundaries (gap exactly equal to the maximum, targets outside the data, coinciding targets) depend on every sample/target configuration.",
  ['rdtools/normalization.py'], [('interpolate', 'rdtools/normalization.py:interpolate'), ('gap-size bookkeeping on the union of sample and target times', 'rdtools/normalization.py:_interpolate_series')],
  observe=['value returned by interpolate'])
p('C02', 'Energy is the time integral of power, reported only where data supports it',
  "Converting power to energy yields, for each right-labelled interval of the target frequency, the sum over the interval of power times elapsed hours (the power of the next sample for right-labelled power, the average of the interpolated ends for instantaneous power), so for gap-free data energy is additive and scales linearly with power. Intervals containing only time inside a gap between valid samples longer than the maximum gap (given, or the median step), or ending in an over-long step, are NaN rather than an estimate. Single-sample inputs use the interval length of the target or index frequency, and inputs without a usable frequency or with an unknown power type raise ValueError.",
  ['inputs', 'configurations'], "every power series (irregular, gaps, NaNs), target frequency at, above or below the sampling step, power type and maximum gap",
  "Tests check a few hand-computed series; integration weights, gap masks and labels must be right for every alignment between sampling and target frequency.",
  ['rdtools/normalization.py'], [('energy_from_power', 'rdtools/normalization.py:energy_from_power'), ('rectangular/trapezoid sums with gap mask', 'rdtools/normalization.py:_aggregate')],
  observe=['value returned by energy_from_power'])
p('C03', 'Normalized energy is measured over expected energy with matching insolation',
  "Expected DC power is rated power times irradiance over reference irradiance, times 1 + gamma (cell temperature - reference temperature) exactly when both temperature and gamma are given. Normalizing divides, time by time, the measured energy (integrated from power when power is given) by the energy integrated from expected power at the frequency of the measurements (interpolating a coarser model onto the measurement times first), and returns insolation integrated from the irradiance at the same frequency; both results share one index covering every timestamp of either. An irregular measurement series or an unknown input type raises ValueError.",
  ['inputs', 'configurations'], "every measurement/model/irradiance series, parameter values, power or energy input, model finer or coarser than measurement",
  "Tests use constant series and one frequency mismatch; the formula and the choice of integration/interpolation must hold for all values, optional-argument combinations and frequencies.",
  ['rdtools/normalization.py'], [('normalize_with_expected_power', 'rdtools/normalization.py:normalize_with_expected_power'), ('pvwatts_dc_power', 'rdtools/normalization.py:pvwatts_dc_power'), ('normalize_with_pvwatts', 'rdtools/normalization.py:normalize_with_pvwatts')],
  observe=['returned energy_normalized and insolation'])
p('C04', 'Threshold filters keep exactly the points inside their stated bounds',
  "Each point filter returns a boolean series on the input's index that is True exactly for points inside the stated bounds: normalized energy, irradiance and cell temperature strictly between low and high (a missing normalized-energy bound meaning unbounded), clear-sky index within 1 +/- threshold inclusive, insolation at or above its quantile, power below 99% of the robust quantile, and solar hour angle between the limits inclusive. A NaN measurement never passes. The clear-sky and clipping dispatchers apply the model named (forwarding its options) and raise ValueError for an unknown model.",
  ['inputs', 'configurations'], "every series (NaN, infinities, values equal to the bounds), every bound including None and reversed bounds",
  "Tests evaluate each filter on one short series with one set of bounds; boundary equality, NaN, zero clear-sky irradiance, and non-default bounds are unsampled.",
  ['rdtools/filtering.py'], [('comparison masks', 'rdtools/filtering.py:normalized_filter,poa_filter,tcell_filter,csi_filter,insolation_filter,quantile_clip_filter,hour_angle_filter'), ('dispatch', 'rdtools/filtering.py:clearsky_filter,clip_filter')],
  observe=['returned mask'])
p('C05', 'Outlier filters reject exactly the points their window rule rejects',
  "The two-way window filter keeps a point exactly when, after scaling by the 99th percentile, its distance to the backward-looking or to the forward-looking window median is below the threshold (a side whose window has fewer than five points, or where a value is missing, never rejects); the Hampel filter keeps a point exactly when its distance to the centred rolling median is at most t0 x 1.4826 x the rolling median of those distances; the directional Tukey filter keeps a point exactly when its offset from the backward or the forward median lies strictly within k interquartile ranges of the quartiles of those offsets. Masks are aligned with the input index.",
  ['inputs', 'configurations'], "every aggregated series (gaps, NaN, outliers), window length and threshold parameter",
  "Tests assert a couple of planted outliers in synthetic series with default parameters; direction of windows, closedness, one-side passing and parameters other than the default are not settled by them.",
  ['rdtools/filtering.py'], [('two_way_window_filter', 'rdtools/filtering.py:two_way_window_filter'), ('hampel_filter', 'rdtools/filtering.py:hampel_filter'), ('directional_tukey_filter', 'rdtools/filtering.py:directional_tukey_filter,_tukey_fence')],
  observe=['returned mask'])
p('C06', 'Clipping filters classify every input point from its relative level only',
  "The logic and machine-learning clipping filters return a boolean series on exactly the input's index (for the logic filter repeated timestamps included), never mark a NaN reading as clipped, and depend only on the shape of the signal: multiplying the power by a positive constant leaves the mask unchanged. The logic filter marks as clipped exactly the points lying in the day's clipping band derived from periods whose rolling relative range is below the cutoff (plus, when clipping is prevalent and reaches the top of the data, every point at or above the 99% robust quantile). Unsorted, too short (10 readings or fewer), non-datetime or unknown-mounting inputs are rejected with an exception.",
  ['inputs', 'configurations'], "every power series at any sampling interval, every cutoff, rolling-period count and mounting type",
  "Tests run one generated dataset and compare counts; alignment, NaN and level-independence must hold for all series and sampling rates.",
  ['rdtools/filtering.py'], [('logic_clip_filter', 'rdtools/filtering.py:logic_clip_filter'), ('xgboost_clip_filter', 'rdtools/filtering.py:xgboost_clip_filter'), ('overall threshold', 'rdtools/filtering.py:_apply_overall_clipping_threshold'), ('input checks', 'rdtools/filtering.py:_format_clipping_time_series')],
  observe=['returned mask'])
p('C07', 'Aggregated performance is the insolation-weighted mean of each period',
  "Aggregating normalized energy over a frequency gives, for each period, the sum of insolation times normalized energy divided by the sum of insolation of that period, with periods counted from the start of the first day and empty periods NaN. Hence with non-negative insolation each value lies between the smallest and largest normalized energy of its period, and multiplying all insolation by a constant changes nothing.",
  ['inputs', 'configurations'], "every pair of series without missing energy values, every aggregation frequency",
  "The single test averages one fixed series; weights, period origin and zero-insolation periods are not settled by it.",
  ['rdtools/aggregation.py'], [('aggregation_insol', 'rdtools/aggregation.py:aggregation_insol')],
  observe=['returned series'])
p('C08', 'Year-on-year degradation is the median of all one-year-apart slopes',
  "Year-on-year degradation pairs every point with the latest point at least one calendar year earlier (and within eight days of that anniversary), computes 100 x change in energy / (elapsed days / 365) after dividing by the robust median of the first 364 days when recentering, and returns the median of the slopes; the reported slopes, renormalizing factor and per-point usage counts describe exactly those pairs. Reordering the input, or (when recentering) rescaling it by a positive constant, does not change the rate; less than two years of data or no pairs raises ValueError.",
  ['inputs', 'configurations'], "every normalized series (daily to monthly, gaps, leap days, unsorted), with and without recentering, every uncertainty method",
  "Tests use noiseless synthetic trends where wrong pairing, tolerance or normalization still gives the right median.",
  ['rdtools/degradation.py'], [('degradation_year_on_year', 'rdtools/degradation.py:degradation_year_on_year')],
  observe=['returned rate and calc_info'])
p('C09', 'Regression trends are least-squares slopes relative to the intercept',
  "Ordinary-least-squares degradation is 100 x slope / intercept of the least-squares line of normalized energy against elapsed 365-day years since the first timestamp, ignoring missing values; the reported slope, intercept, their standard errors and root mean squared error are those of that fit. Classical decomposition fits the same line to the centred one-year moving average restricted to points with half a year of data on both sides, reports that average and the trend test on it, and raises ValueError if the series is irregular or has missing data.",
  ['inputs'], "every normalized energy series, any confidence level",
  "Tests use exact noiseless lines, for which many wrong weightings or windows give the same slope.",
  ['rdtools/degradation.py'], [('degradation_ols', 'rdtools/degradation.py:degradation_ols'), ('degradation_classical_decomposition', 'rdtools/degradation.py:degradation_classical_decomposition')],
  observe=['returned rate and calc_info'])
p('C10', 'Trend significance test is the two-sided Mann-Kendall test',
  "The trend reported with classical decomposition is the two-sided Mann-Kendall test: S counts increasing minus decreasing pairs, its variance is (n(n-1)(2n+5) - sum over tie groups t(t-1)(2t+5))/18, z is S shrunk by one toward zero over the standard deviation, and the trend is 'increasing'/'decreasing' exactly when |z| exceeds the normal quantile at 1-alpha/2, otherwise 'no trend'. Reversing the series swaps increasing and decreasing, and any strictly increasing transformation of the data leaves the result unchanged.",
  ['inputs'], "every data vector (with and without ties) and significance level",
  "Tests only assert a trend label on a strongly decreasing series.",
  ['rdtools/degradation.py'], [('_mk_test', 'rdtools/degradation.py:_mk_test')],
  observe=['mk_test_trend in calc_info', '_mk_test result'])
p('C11', 'Confidence intervals and exceedance levels are the stated percentiles',
  "Every reported confidence interval at level c is the (50 - c/2)th to (50 + c/2)th percentile of the bootstrap or Monte Carlo distribution of the reported quantity, and every exceedance level at probability p is its (100 - p)th percentile. Hence lower <= upper, both lie within the range of the distribution, a higher confidence level never gives a narrower interval from the same draws, and a higher exceedance probability never gives a higher exceedance level.",
  ['inputs', 'configurations', 'histories'], "every series, confidence level, exceedance probability and random draw, for year-on-year, regression, decomposition, block-bootstrap, soiling and availability estimates",
  "Tests compare intervals for one seed and level with loose tolerances; which tail and which width is used at other levels is not settled.",
  ['rdtools/degradation.py', 'rdtools/bootstrap.py', 'rdtools/soiling.py', 'rdtools/availability.py'],
  [('percentiles of bootstrap medians', 'rdtools/degradation.py:degradation_year_on_year'), ('_degradation_CI', 'rdtools/degradation.py:_degradation_CI'), ('_construct_confidence_intervals', 'rdtools/bootstrap.py:_construct_confidence_intervals'), ('SRR intervals', 'rdtools/soiling.py:SRRAnalysis.run')],
  observe=['returned intervals and exceedance levels'])
p('C12', 'Block-bootstrap samples recombine the model with resampled residuals',
  "Every generated bootstrap sample has the signal's index and equals the model fit combined (multiplied or added, according to the decomposition type) with residuals drawn in blocks of the requested length, wrapping around circularly, from signal combined inversely with the model fit. The requested number of samples is produced, the same seed reproduces the same samples, and an unknown decomposition type raises ValueError.",
  ['inputs', 'configurations', 'histories'], "every signal and model fit, block length, sample count, decomposition type and seed",
  "Tests check shapes and one seed's values.",
  ['rdtools/bootstrap.py'], [('_make_time_series_bootstrap_samples', 'rdtools/bootstrap.py:_make_time_series_bootstrap_samples')],
  observe=['returned samples'])
p('C13', 'Soiling intervals partition the record exactly at cleaning events',
  "The daily soiling table covers every day from first to last once, and consecutive soiling intervals partition it: a new interval starts exactly on the days that are cleaning events. An event is an upward shift of the daily rolling median beyond the threshold (a given value, or q3 + outlier_factor x IQR of the absolute shifts), a day with precipitation above the precipitation threshold, a shift with such precipitation within the centred three-day window, or either of shift and precipitation, as the chosen criterion says; in addition the last day before and the first day after a run of more than day_scale days without data start an interval. Invalid criteria and non-daily inputs raise ValueError.",
  ['inputs', 'configurations'], "every daily performance/insolation/precipitation record (with gaps), every cleaning criterion, threshold and smoothing setting",
  "Tests run one synthetic sawtooth; which days become events under gaps, ties at the threshold, centred or not smoothing must be right for every record.",
  ['rdtools/soiling.py'], [('_calc_daily_df', 'rdtools/soiling.py:SRRAnalysis._calc_daily_df'), ('_collapse_cleaning_events', 'rdtools/soiling.py:_collapse_cleaning_events')],
  observe=['SRRAnalysis daily table'])
p('C14', 'Soiling interval fits are valid only when data supports them',
  "Each soiling interval's summary reports its own first and last day, length and observed losses, and a Theil-Sen slope with confidence bounds; the interval is valid exactly if it has more than the minimum number of days with data, its slope is not positive, the relative uncertainty of the slope is below the maximum and no step of the rolling median inside it falls by the maximum negative step or more; invalid intervals carry slope and slope bounds 0. Inferred losses run along the fitted slope inside valid intervals; if no valid interval exists the analysis raises NoValidIntervalError rather than returning a soiling estimate.",
  ['inputs', 'configurations'], "every partitioned record, trim/method/neg_shift/piecewise setting, minimum interval length and maximum relative drop/uncertainty",
  "Tests compare point values from one synthetic record.",
  ['rdtools/soiling.py'], [('_calc_result_df', 'rdtools/soiling.py:SRRAnalysis._calc_result_df')],
  observe=['SRRAnalysis.result_df'])
p('C15', 'Soiling profiles stay within physical bounds and reset at cleanings',
  "Every Monte Carlo soiling profile starts each valid interval at its recovery level (perfect cleaning: 1; random: between the end of the previous valid interval and 1; half-norm: at most 1), never exceeds 1, declines linearly over the interval at one slope drawn between the interval's slope bounds; consecutive invalid intervals share one constant level between the end of the valid interval before and the start of the one after (1 at the edges of the record). The insolation-weighted soiling ratio of each profile is the insolation-weighted mean of that profile over days with insolation, and the reported soiling ratio is the median over profiles with its percentile interval.",
  ['inputs', 'histories', 'configurations'], "every set of soiling intervals, every random draw, method and number of repetitions",
  "Tests check a mean to 1e-2 with one seed.",
  ['rdtools/soiling.py'], [('_calc_monte', 'rdtools/soiling.py:SRRAnalysis._calc_monte'), ('run', 'rdtools/soiling.py:SRRAnalysis.run')],
  observe=['calc_info of soiling_srr'])
p('C16', 'Annual and monthly soiling summaries condense exactly the profiles given',
  "Annual soiling ratios are, per calendar year, the median and the central percentile bounds over profiles of the insolation-weighted mean soiling ratio of that year. Monthly soiling rates are, per calendar month, the median and central bounds of rates drawn uniformly between the bounds of each valid interval that is at least the minimum length and whose relative rate uncertainty is at most the maximum, each interval contributing in proportion to its days overlapping that month; months without such an interval are NaN, and the number of intervals is reported. Every month 1-12 and every year present appears exactly once and lower bound <= median <= upper bound.",
  ['inputs', 'configurations', 'histories'], "every list of profiles, insolation series, interval summary, confidence level and minimum length",
  "Tests check one fixed set of profiles.",
  ['rdtools/soiling.py'], [('annual_soiling_ratios', 'rdtools/soiling.py:annual_soiling_ratios'), ('monthly_soiling_rates', 'rdtools/soiling.py:monthly_soiling_rates')],
  observe=['returned frames'])
p('C17', 'CODS decomposition yields bounded components whose product is the model',
  "The combined degradation and soiling decomposition returns, for every day of the input, a soiling ratio of at most 1, a seasonal component repeating yearly and a degradation trend (linear in the reported rate for the year-on-year method; a component that is not fitted is 1), whose product with the residual shift is exactly the reported total model; residuals are the input divided by the product of the three components, the residual shift is their mean, and soiling loss is the mean of 1 - soiling ratio in percent. The bootstrap reports the initial fit of greatest weight, weighted means over its realisations, and bounds that are the central percentiles over those realisations, so lower <= upper. Inputs that are not daily, or an order without 'SR', raise ValueError.",
  ['inputs', 'configurations', 'histories'], "every daily performance index series, component order, options and bootstrap draw",
  "Tests run one synthetic signal with a few options and compare accuracy loosely.",
  ['rdtools/soiling.py'], [('iterative_signal_decomposition', 'rdtools/soiling.py:CODSAnalysis.iterative_signal_decomposition'), ('run_bootstrap', 'rdtools/soiling.py:CODSAnalysis.run_bootstrap')],
  observe=['returned data frame'])
p('C18', 'Subsystem power losses are never negative and only where a subsystem is down',
  "Estimated instantaneous loss from subsystem outages is, at every time, non-negative and zero when every subsystem or no subsystem is online, a subsystem being online when its power exceeds its low threshold (given, or a thousandth of its 99th percentile). Otherwise, when the system's shortfall exceeds 75% of the smallest offline subsystem's share, it is (1 - f)/f times the actual power, with f the ratio of actual power to the power the online subsystems imply for the full system, but at least their share of capacity; capped by the system's limit when one is given. Relative subsystem size is the median of its power over the mean of the subsystems, and mismatched indexes raise ValueError.",
  ['inputs', 'configurations'], "every set of subsystem power series, system power and low-threshold override",
  "Tests use two or three constant-shape subsystems.",
  ['rdtools/availability.py'], [('_calc_loss_subsystem', 'rdtools/availability.py:AvailabilityAnalysis._calc_loss_subsystem')],
  observe=['AvailabilityAnalysis.loss_subsystem'])
p('C19', 'Availability is actual over actual plus lost energy, per period',
  "Full-system outages are the maximal runs of daylight time (expected power above zero) in which no subsystem reports, spanning nights, each reported once with start before end, with its expected energy and the actual energy from the cumulative meter. An outage whose production is below the error-bounded expectation is real and loses expected minus actual energy; otherwise it is a communications outage and loses nothing; one over which the meter fell by more than the tolerance is unknown and its loss is NaN. The loss time series integrates to each outage's loss, total loss is outage loss plus subsystem loss, and for every reporting period availability equals 1 - loss/(loss + actual), hence lies in [0, 1] when loss and production are non-negative.",
  ['inputs', 'configurations', 'histories'], "every power, expected power and cumulative energy record (outages, communication gaps, meter restarts), quantiles and rollup period",
  "Tests cover a few constructed outages.",
  ['rdtools/availability.py'], [('_calc_loss_system', 'rdtools/availability.py:AvailabilityAnalysis._calc_loss_system'), ('_combine_losses', 'rdtools/availability.py:AvailabilityAnalysis._combine_losses')],
  observe=['AvailabilityAnalysis.results, outage_info'])
p('C20', 'A point is analysed only if every enabled filter keeps it',
  "In both sensor and clear-sky workflows the point-level and the aggregated-level mask are the logical AND of exactly the filters enabled in the configuration with their configured options, plus the user's ad hoc mask (NaN entries counting as False, timestamps it does not cover being kept, entries at other timestamps ignored); disabled filters have no effect, points missing from an enabled filter's mask are excluded, the clear-sky filter always applies in the clear-sky workflow, and the components are kept for inspection.",
  ['inputs', 'configurations'], "every combination of enabled filters and options, every ad hoc mask (None, partial index, NaN), both workflow cases",
  "Tests toggle one filter at a time on one dataset.",
  ['rdtools/analysis_chains.py'], [('_filter', 'rdtools/analysis_chains.py:TrendAnalysis._filter'), ('_aggregated_filter', 'rdtools/analysis_chains.py:TrendAnalysis._aggregated_filter')],
  state=[('filter_params', 'enabled point filters', 'rdtools/analysis_chains.py'), ('filter_params_aggregated', 'enabled aggregated filters', 'rdtools/analysis_chains.py')],
  observe=['sensor_filter, clearsky_filter and *_components attributes'])
p('C21', 'Trend workflows compose the building blocks on the right data',
  "Running a sensor or clear-sky analysis gives the same results as applying, in order, regularization to the requested interval, normalization with the configured model, the point filters, insolation-weighted aggregation of only the points kept, the aggregated filters, and the requested year-on-year or soiling estimate on only the aggregated points kept, using sensor inputs for the sensor case and modelled clear-sky irradiance and temperature for the clear-sky case. Analyses other than the requested ones are absent from the results, and missing required inputs raise (ValueError; a clear-sky analysis before set_clearsky AttributeError).",
  ['inputs', 'configurations', 'histories'], "every configuration of inputs (power/energy, expected power or PVWatts, interpolation frequency, aggregation frequency), both cases, any order of calls",
  "Tests pin numerical results of a few configurations.",
  ['rdtools/analysis_chains.py'], [('_sensor_preprocess, sensor_analysis, clearsky_analysis', 'rdtools/analysis_chains.py:TrendAnalysis'), ('_aggregate', 'rdtools/analysis_chains.py:TrendAnalysis._aggregate')],
  observe=['results dictionary and attributes'])
p('C22', 'Filter configuration accepts only known filter names',
  "A filter-configuration dictionary never contains a key that is not a known filter name, whatever sequence of operations built or changed it (construction, item assignment, update, merge, setdefault, whole replacement on an analysis object); an attempt to introduce an unknown key raises KeyError and leaves previous entries intact.",
  ['histories', 'inputs'], "every finite sequence of dictionary operations and every key",
  "Tests try one bad key in construction and assignment.",
  ['rdtools/analysis_chains.py'], [('ValidatedFilterDict', 'rdtools/analysis_chains.py:ValidatedFilterDict'), ('filter_params property setters', 'rdtools/analysis_chains.py:TrendAnalysis')],
  state=[('valid_keys', 'allowed names', 'rdtools/analysis_chains.py:ValidatedFilterDict.valid_keys')],
  observe=['the dictionary keys'])
p('C23', 'Clear-sky temperature follows the local day/night climatology',
  "The clear-sky ambient temperature at each requested time is the mean of the smoothed local day and night climatological temperatures plus 0.35 times their difference times a daily cosine peaking at the solar afternoon (16 h shifted by longitude relative to the UTC offset), using the climatology cell nearest to the given coordinates. The result is indexed by exactly the requested times, and every valid latitude and longitude, the edges included, maps to a cell.",
  ['inputs', 'configurations'], "every time index with time zone (any frequency or offset), latitude and longitude",
  "Tests sample a few coordinates; index arithmetic at the map edges and the phase for every time zone are unsampled.",
  ['rdtools/clearsky_temperature.py'], [('get_clearsky_tamb', 'rdtools/clearsky_temperature.py:get_clearsky_tamb'), ('_get_temperature', 'rdtools/clearsky_temperature.py:_get_temperature'), ('_get_pixel_value', 'rdtools/clearsky_temperature.py:_get_pixel_value')],
  observe=['returned series'])
p('C24', "Analysis functions never modify the caller's data",
  "Calling any analysis function or running any analysis object leaves every series, frame, index and dictionary passed in by the caller exactly as it was: values, index, index name, series name and columns.",
  ['inputs', 'configurations', 'histories'], "every public function and every input, including NaN-containing and unnamed series",
  "Tests never compare inputs before and after.",
  ['rdtools/normalization.py', 'rdtools/filtering.py', 'rdtools/aggregation.py', 'rdtools/degradation.py', 'rdtools/bootstrap.py', 'rdtools/utilities.py', 'rdtools/analysis_chains.py', 'rdtools/soiling.py', 'rdtools/availability.py', 'rdtools/clearsky_temperature.py'],
  [('defensive copies', 'rdtools/*')],
  observe=["the caller's objects after the call"])
p('C25', 'Robust statistics ignore missing and negligible values',
  "The robust quantile, median and mean of a non-negative series equal the plain quantile, median or mean of only those values that exceed one thousandth of the q-quantile of the series with missing values taken as zero; missing entries thus never count, and the result scales with the data.",
  ['inputs', 'configurations'], "every non-negative series with any NaN pattern and every q",
  "Tests use one series with and without NaN at the default q.",
  ['rdtools/utilities.py'], [('robust_quantile', 'rdtools/utilities.py:robust_quantile'), ('robust_median', 'rdtools/utilities.py:robust_median'), ('robust_mean', 'rdtools/utilities.py:robust_mean')],
  observe=['returned value'])
p('C26', 'Irradiance rescaling returns one converged scale factor times the model',
  "Rescaling modelled irradiance returns the modelled series multiplied by a single factor, which in iterative mode differs from the previous iterate by at most the convergence threshold, where each iterate minimises the root mean square difference over points whose clear-sky index under the previous factor lies in [0.8, 1.2] and whose measured irradiance exceeds 200. If convergence is not reached within the allowed number of iterations a ConvergenceError is raised, and an unknown method raises ValueError.",
  ['inputs', 'configurations'], "every pair of series, iteration limit and threshold",
  "Tests use scaled copies of one curve.",
  ['rdtools/normalization.py'], [('irradiance_rescale', 'rdtools/normalization.py:irradiance_rescale')],
  observe=['returned series'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
print(len(P))
