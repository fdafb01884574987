From 7152ae52de3260307c89886eb377864136ec6d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:49 +0000
Subject: [PATCH 01/20] fix: do not extrapolate instantaneous power past the
 last valid sample

energy_from_power(power_type='instantaneous') filled missing power after the
last valid sample with that sample's value and reported energy for it, however
long the gap. Interpolate only between valid samples.
---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..636b225 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -507,7 +507,7 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
         # interpolate with trapz sum
-        time_series = time_series.interpolate(method='time')
+        time_series = time_series.interpolate(method='time', limit_area='inside')
         time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
-- 
2.43.0


From 3e52eda32c281c38f0aa575a1515635592749d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 02/20] fix: compare average time steps exactly in
 normalize_with_expected_power

The average steps of model and measurements were computed from float hours
since the epoch; rounding made equal steps compare as different, so a model
with the same step was interpolated onto the measurement times (dropping
timestamps and filling missing expected power).
---
 rdtools/normalization.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 636b225..a97ae58 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -193,21 +193,24 @@ def _delta_index(series):
         The average timestep
     '''
 
+    ns_per_hour = 10.0**9 * 3600.0
+
+    # Steps are differenced and averaged in nanoseconds, and only then converted
+    # to hours, so that series with equal steps have exactly equal averages.
     if series.index.freq is None:
         # If there is no frequency information, explicitly calculate interval
         # sizes. Length of each interval calculated by using 'int64' to convert
         # to nanoseconds.
-        hours = pd.Series(series.index.view('int64') / (10.0**9 * 3600.0))
-        hours.index = series.index
-        deltas = hours.diff()
+        deltas = pd.Series(series.index.view('int64')).diff()
+        deltas.index = series.index
     else:
         # If there is frequency information, pandas shift can be used to gain
         # a meaningful interval for the first element of the timeseries
         # Length of each interval calculated by using 'int64' to convert to
         # nanoseconds.
-        deltas = (series.index - series.index.shift(-1)).view('int64') / \
-                 (10.0**9 * 3600.0)
-    return deltas, np.mean(deltas[~np.isnan(deltas)])
+        deltas = (series.index - series.index.shift(-1)).view('int64')
+    mean = np.mean(deltas[~np.isnan(deltas)]) / ns_per_hour
+    return deltas / ns_per_hour, mean
 
 
 delta_index = deprecated('2.0.0', removal='3.0.0')(_delta_index)
-- 
2.43.0


From bb590d965b780c1c250f4501a7537ca6f0f859b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:41 +0000
Subject: [PATCH 03/20] fix: validate filter names in
 ValidatedFilterDict.setdefault and |=

Both inherited the dict implementation and accepted unknown filter names; update
with an iterator of pairs validated the keys but consumed and dropped them.
---
 rdtools/analysis_chains.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..2d5a74a 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1283,10 +1283,20 @@ class ValidatedFilterDict(dict):
         super(ValidatedFilterDict, self).__setitem__(key, value)
 
     def update(self, *args, **kwargs):
-        for key in dict(*args, **kwargs).keys():
+        new = dict(*args, **kwargs)
+        for key in new.keys():
             if key not in self.valid_keys:
                 raise KeyError(self._err_msg.format(key))
-        super(ValidatedFilterDict, self).update(*args, **kwargs)
+        super(ValidatedFilterDict, self).update(new)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _validate_keys(self):
         for key in self.keys():
-- 
2.43.0


From 486dbca415352b33c4677057da3ac1868761b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 04/20] fix: lower Tukey fence ignored the parameter k

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..1716546 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From ecac13d87c7d956577ec13d193b6986443eaf611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 05/20] fix: degradation_ols and classical decomposition
 renamed the caller's series

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..2c5e856 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From 7ef4622e4ccd29fdd82b67ae8c57e65af4e8c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 06/20] fix: year-on-year pairing after a leap day depended on
 an unstable sort

---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 2c5e856..cec5150 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -272,7 +272,7 @@ def degradation_year_on_year(energy_normalized, recenter=True,
     # Merge with what happened one year ago, use tolerance of 8 days to allow
     # for weekly aggregated data
     df = pd.merge_asof(energy_normalized[['dt', 'energy']],
-                       energy_normalized.sort_values('dt_shifted'),
+                       energy_normalized.sort_values('dt_shifted', kind='stable'),
                        left_on='dt', right_on='dt_shifted',
                        suffixes=['', '_right'],
                        tolerance=pd.Timedelta('8D')
-- 
2.43.0


From a1c68f1a5ad5d8a71415e940c420048169efdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 07/20] fix: Mann-Kendall variance added the tie correction
 instead of subtracting it

---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index cec5150..7baa2d0 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -399,7 +399,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From 4af3995af50e9bb0b4ca6d46e9a85ef03b98d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 08/20] fix: coordinates at the edge of the climatology map
 fell outside it

---
 rdtools/clearsky_temperature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..8e6c607 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -76,8 +76,8 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     lon_temp = longitude - 180
     if lon_temp < 0:
         lon_temp += 360
-    lon_index = round(float(lons) * float(lon_temp) / 360.0)
-    lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
+    lon_index = round(float(lons) * float(lon_temp) / 360.0) % lons
+    lat_index = min(round(float(lats) * (90.0 - float(latitude)) / 180.0), lats - 1)
 
     df = pd.DataFrame(index=dt_daily)
     df['month'] = df.index.month
-- 
2.43.0


From 81c576e2d70500c6f7bda8ce4b834c3b5681639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:36 +0000
Subject: [PATCH 09/20] fix: NaN entries were overwritten in the caller's ad
 hoc filter

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 2d5a74a..e96546e 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From 50bc0fe95797eb21c576440e0dc9acab0d1b6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:05 +0000
Subject: [PATCH 10/20] fix: levels of invalid soiling intervals were assigned
 in set order, not interval order

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..005d4d0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From 8dea7377b36501d2b6645df7686c420bad710c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:26 +0000
Subject: [PATCH 11/20] fix: count the first interval of a full outage when
 spreading its loss over time

The expected energy of each outage was integrated from the slice of expected
power inside the outage, which drops its first interval.  The loss time series
and hence lost_production then integrated to more than the outage's loss.
---
 rdtools/availability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..38169d6 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -498,12 +498,15 @@ class AvailabilityAnalysis:
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
         expected_power = self.power_expected
+        # integrate the full series so that the first interval of each outage
+        # is counted
+        expected_energy = rdtools.energy_from_power(expected_power)
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
             subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            subset_energy = expected_energy.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From 558b8dea9bbe3832f53eaac39c36886f0e476d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:50 +0000
Subject: [PATCH 12/20] fix: outage at the start of the record took its
 starting energy from the last timestamp

---
 rdtools/availability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 38169d6..89cff11 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -439,7 +439,8 @@ class AvailabilityAnalysis:
 
             # self.cumulative_energy[start] is the first value in the outage.
             # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # (data that starts in an outage has no previous value)
+            start_minus_one = all_times[max(all_times.get_loc(start) - 1, 0)]
 
             data = {
                 'start': start,
-- 
2.43.0


From 26807f7798185c2bfdb4b98038612f93db538eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:29 +0000
Subject: [PATCH 13/20] fix: logic_clip_filter failed when a repeated timestamp
 is clipped

---
 rdtools/filtering.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 1716546..bbbf590 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -640,8 +640,7 @@ def logic_clip_filter(
     if original_time_series_sampling_frequency < 10:
         clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
         # Subset the series where clipping filter == True
-        clip_pwr = power_ac_copy[clipping]
-        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
+        clip_pwr = power_ac_copy.where(clipping)
         # Set any values within the clipping max + clipping min threshold
         # as clipping. This is done specifically for capturing the noise
         # for high frequency data sets.
@@ -663,8 +662,7 @@ def logic_clip_filter(
         # Find the maximum and minimum power_ac level where clipping is
         # detected each day.
         clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
-        clip_pwr = power_ac_copy[clipping]
-        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
+        clip_pwr = power_ac_copy.where(clipping)
         daily_clipping_max = clip_pwr.resample("D").max()
         daily_clipping_min = clip_pwr.resample("D").min()
         daily_clipping_min = daily_clipping_min.reindex(
-- 
2.43.0


From 5afdea91567c9909ec08042b55ddc0be521b26b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:45 +0000
Subject: [PATCH 14/20] fix: upper bound of a small soiling loss was a
 fraction, not a percentage

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 005d4d0..bf710be 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1767,7 +1767,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From 683313076e6f686b0a5e5d00f12bd261dbc53845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:45 +0000
Subject: [PATCH 15/20] fix: bootstrapped CODS results were built on the last
 initial fit, not the best one

---
 rdtools/soiling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index bf710be..ac75e67 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1881,6 +1881,7 @@ class CODSAnalysis():
         concat_ce = pd.concat([kdf.cleaning_events for kdf in bt_kdfs], axis=1)
 
         # Find confidence intervals for SR and soiling rates
+        df_out = result_df.copy()
         df_out['SR_low'] = concat_SR.quantile(ci_low_edge, 1)
         df_out['SR_high'] = concat_SR.quantile(ci_high_edge, 1)
         df_out['rates_low'] = concat_r_s.quantile(ci_low_edge, 1)
-- 
2.43.0


From dbeb99fac619352389764a5dd91925b164340273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:21 +0000
Subject: [PATCH 16/20] fix: regression trends of a constant series
 (statsmodels skipped the intercept column)

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 7baa2d0..9f11d86 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -42,7 +42,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
     df['years'] = df.days / 365.0
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_normalized,
@@ -135,7 +135,7 @@ def degradation_classical_decomposition(energy_normalized,
     df['energy_ma'] = energy_ma
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_ma, exog=df.loc[:, ['const', 'years']],
-- 
2.43.0


From 9482974650d4d5009d8763c3b9ce003dcf8a24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:17 +0000
Subject: [PATCH 17/20] fix: classical decomposition accepted data missing at
 the ends of the series

---
 rdtools/degradation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 9f11d86..c864542 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -112,11 +112,12 @@ def degradation_classical_decomposition(energy_normalized,
 
     df_check_freq = df.copy()
 
-    # The frequency attribute will be set to None if rows are dropped.
-    # We can use this to check for missing data and raise a ValueError.
+    # The frequency attribute will be set to None if rows are dropped, except
+    # at the ends. We can use this and the number of rows to check for missing
+    # data and raise a ValueError.
     df_check_freq = df_check_freq.dropna()
 
-    if df_check_freq.index.freq is None:
+    if df_check_freq.index.freq is None or len(df_check_freq) != len(df):
         raise ValueError('Classical decomposition requires a regular time '
                          'series with defined frequency and no missing data.')
 
-- 
2.43.0


From 29907e135f50419be4d8bc4eead661ee949904ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:33 +0000
Subject: [PATCH 18/20] fix: clear-sky temperature where midnight occurs twice

In zones whose clocks go back over midnight (America/Havana, Atlantic/Azores)
the daily climatology index could not be localized: every request within
window_size days of that date raised AmbiguousTimeError.
---
 rdtools/clearsky_temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 8e6c607..b9bb566 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -62,7 +62,8 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
-    dt_daily = dt_daily.tz_localize(times.tz, ambiguous='infer',
+    # where midnight occurs twice (e.g. America/Havana), the day starts at the first
+    dt_daily = dt_daily.tz_localize(times.tz, ambiguous=np.full(len(dt_daily), True),
                                     nonexistent='shift_forward')
 
     f = h5py.File(filepath, "r")
-- 
2.43.0


From 60f4e2f31ed13a36feeddf7afb5cd35172c0a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:18 +0000
Subject: [PATCH 19/20] fix: clear-sky temperature interpolated at the
 requested times

The smoothed daily climatology was interpolated on a grid of the inferred
frequency. Where local midnights leave that grid (2 h data after a change to
daylight saving time) the temperature froze at its last value, and times whose
first ten entries have no inferable frequency failed.
---
 rdtools/clearsky_temperature.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index b9bb566..c3e0a49 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -49,17 +49,6 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     buffer = timedelta(days=window_size)
 
-    if times.freq is None:
-        freq_actual = pd.infer_freq(times)
-        if freq_actual is None:
-            times._engine.clear_mapping()
-            # workaround from https://github.com/pandas-dev/pandas/issues/55794
-            freq_actual = pd.infer_freq(times[:10])
-            warnings.warn("Input 'times' has no frequency attribute. "
-                          "Inferring frequency from first 10 timestamps.")
-    else:
-        freq_actual = times.freq
-
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
     # where midnight occurs twice (e.g. America/Havana), the day starts at the first
@@ -102,10 +91,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     df = df.rolling(window=window_size, win_type='gaussian', min_periods=1,
                     center=True).mean(std=gauss_std)
 
-    df = df.resample(freq_actual).interpolate(method='linear')
-    df['month'] = df.index.month
-
-    df = df.reindex(times, method='nearest')
+    # interpolate at the requested times, whatever their frequency
+    df = df.reindex(df.index.union(times.unique())).interpolate(method='time')
+    df = df.reindex(times)
 
     utc_offsets = [y.utcoffset().total_seconds() / 3600.0 for y in df.index]
 
-- 
2.43.0


From a6a4803fc2251fcca4a3933dd098f99d73f73cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:22 +0000
Subject: [PATCH 20/20] fix: CODS decomposition with the soiling ratio as third
 component

iterative_signal_decomposition(order=('SC', 'Rd', 'SR')) raised IndexError: in
the third iteration it asked for the cleaning events of an earlier soiling fit
although none had been made yet.
---
 rdtools/soiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index ac75e67..9f7a868 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1362,8 +1362,8 @@ class CODSAnalysis():
 
             # Find soiling component
             if order[(ic-1) % n_steps] == 'SR':
-                if ic > 2:  # Add possible cleaning events found by considering
-                    # the residuals
+                if ic > 2 and soiling_dfs:  # Add possible cleaning events found
+                    # by considering the residuals
                     pce = soiling_dfs[-1].cleaning_events.copy()
                     cleaning_sensitivity *= 1.2  # decrease sensitivity
                     ce, rm9 = _rolling_median_ce_detection(
-- 
2.43.0

