From 09c3847cb5b9f715575263784489ab1c7303295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 01/18] fix: do not rename the columns of the caller's data
 frame when validating input data

---
 tti/utils/data_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..0dda5ac 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -63,8 +63,9 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     if input_data.empty:
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
-    # Make columns case insensitive
-    input_data.columns = [c.lower() for c in input_data.columns]
+    # Make columns case insensitive (on a new object, the caller's data frame
+    # should not be modified)
+    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis="columns")
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From 7b26e6b5443a42b9de529cb6be63193198e5091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 02/18] fix: MedianPrice trading signal with a single data row
 holds instead of raising IndexError

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From c232ee03598b48f9692027576356e482579a2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 03/18] fix: RangeIndicator trading signal holds when the
 indicator has never been below 20

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From c5b58d98b25d8e55fb588f3b8fdb696f6614ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 04/18] fix: UltimateOscillator divergence signal compares the
 indicator values, not the result of all()

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..dc7e986 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if self._ti_data["uosc"].iloc[-span_period:].min() < 30:
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From fd8741d6603395a16479f7678e8bfccc1cb8782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 05/18] fix: AverageTrueRange trading signal averages the close
 price, not the first column of the caller's data

---
 tti/indicators/_average_true_range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..6971e5d 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -104,9 +104,9 @@ class AverageTrueRange(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate Simple Moving Averages
-        sma_05 = self._input_data.rolling(window=5, min_periods=5).mean()
+        sma_05 = self._input_data[["close"]].rolling(window=5, min_periods=5).mean()
 
-        sma_10 = self._input_data.rolling(window=10, min_periods=5).mean()
+        sma_10 = self._input_data[["close"]].rolling(window=10, min_periods=5).mean()
 
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
-- 
2.43.0


From 89fe0859bd112b60d69c06d6ddc162b4465ff2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 06/18] fix: TypicalPrice trading signal averages the close
 price, not the first column of the caller's data

---
 tti/indicators/_typical_price.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..f849e7d 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -96,7 +96,11 @@ class TypicalPrice(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate moving average of the close prices
-        ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
+        ma = (
+            self._input_data[["close"]]
+            .rolling(window=self._period, min_periods=self._period)
+            .mean()
+        )
 
         # Indicator goes above Moving Average
         if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
-- 
2.43.0


From 4318fa9c1efc7dd07d82c30a82f5905639fc457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 07/18] fix: IchimokuCloud trading signal does not treat an
 undefined cloud as being below the price

---
 tti/indicators/_ichimoku_cloud.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..13621d8 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -107,6 +107,10 @@ class IchimokuCloud(TechnicalIndicator):
                 is above the cloud, -1 means that value is below the cloud.
         """
 
+        # No relative position, when the cloud is not defined yet
+        if any(pd.isna(bound) for bound in cloud):
+            return 0
+
         ordered_values = cloud + [value]
         ordered_values.sort()
 
-- 
2.43.0


From f4a29dd36294187d1df89e1179fe510a02a51e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 08/18] fix: MassIndex reversal bulge requires the indicator to
 have dropped below 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From 777a68d5d0cb0c4028d7b7c9df00142f970ec3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 09/18] fix: AccumulationDistributionLine values are whole
 numbers also when a day with equal high and low is present

---
 tti/indicators/_accumulation_distribution_line.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_accumulation_distribution_line.py b/tti/indicators/_accumulation_distribution_line.py
index 2f3bf3c..ef172ae 100644
--- a/tti/indicators/_accumulation_distribution_line.py
+++ b/tti/indicators/_accumulation_distribution_line.py
@@ -5,6 +5,7 @@ File name: _accumulation_distribution_line.py
     Implements the Accumulation Distribution Line technical indicator.
 """
 
+import numpy as np
 import pandas as pd
 
 from ._technical_indicator import TechnicalIndicator
@@ -71,7 +72,9 @@ class AccumulationDistributionLine(TechnicalIndicator):
 
         adl = adl.cumsum(axis=0)
 
-        return adl.astype(dtype="int64", errors="ignore")
+        # Whole numbers also when the conversion to integers is not possible due
+        # to missing values (days with equal high and low prices)
+        return np.trunc(adl).astype(dtype="int64", errors="ignore")
 
     def getTiSignal(self):
         """
-- 
2.43.0


From fcea837644e2c11e993e2a3c18096b8bcfe046a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 10/18] fix: WilliamsAccumulationDistribution gives no
 divergence signal when its latest value is missing

---
 tti/indicators/_williams_accumulation_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_williams_accumulation_distribution.py b/tti/indicators/_williams_accumulation_distribution.py
index 256c830..0f52e42 100644
--- a/tti/indicators/_williams_accumulation_distribution.py
+++ b/tti/indicators/_williams_accumulation_distribution.py
@@ -104,12 +104,12 @@ class WilliamsAccumulationDistribution(TechnicalIndicator):
 
         if (
             self._input_data["close"].iloc[-span_period:].min() == self._input_data["close"].iat[-1]
-        ) and (self._ti_data["wad"].iloc[-span_period:].min() != self._ti_data["wad"].iat[-1]):
+        ) and (self._ti_data["wad"].iloc[-span_period:].min() < self._ti_data["wad"].iat[-1]):
             return TRADE_SIGNALS["buy"]
 
         if (
             self._input_data["close"].iloc[-span_period:].max() == self._input_data["close"].iat[-1]
-        ) and (self._ti_data["wad"].iloc[-span_period:].max() != self._ti_data["wad"].iat[-1]):
+        ) and (self._ti_data["wad"].iloc[-span_period:].max() > self._ti_data["wad"].iat[-1]):
             return TRADE_SIGNALS["sell"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From ef5a2af588427a0c0bbb399ca6a6f1063e9148aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 11/18] fix: IchimokuCloud does not treat a missing close price
 as being above the cloud

---
 tti/indicators/_ichimoku_cloud.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 13621d8..c3b6c30 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -107,8 +107,9 @@ class IchimokuCloud(TechnicalIndicator):
                 is above the cloud, -1 means that value is below the cloud.
         """
 
-        # No relative position, when the cloud is not defined yet
-        if any(pd.isna(bound) for bound in cloud):
+        # No relative position, when the cloud is not defined yet or the value
+        # is missing
+        if any(pd.isna(item) for item in cloud + [value]):
             return 0
 
         ordered_values = cloud + [value]
-- 
2.43.0


From a4a577e560bb32f0c18965650d17127d25227d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 12/18] fix: further input columns with equal or non-string
 names are left out instead of failing

---
 tti/utils/data_validation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 0dda5ac..eb83bce 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -65,7 +65,9 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
 
     # Make columns case insensitive (on a new object, the caller's data frame
     # should not be modified)
-    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis="columns")
+    input_data = input_data.set_axis(
+        [c.lower() if isinstance(c, str) else c for c in input_data.columns], axis="columns"
+    )
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
@@ -92,9 +94,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
             )
 
     # Remove not required columns, if any
-    for column in input_data.columns:
-        if column not in required_columns:
-            input_data = input_data.drop(columns=column, inplace=False)
+    input_data = input_data.loc[:, input_data.columns.isin(required_columns)]
 
     # Sort dataframe on index ascending
     input_data = input_data.sort_index(ascending=True, inplace=False)
-- 
2.43.0


From 350300aef1668da4c3aade32a770c62c01abc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 13/18] fix: simulations refuse a not a number max_exposure or
 short_exposure_factor

---
 tti/utils/trading_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index e3d30b1..ef3daa2 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -260,7 +260,8 @@ class TradingSimulation:
 
         # Validate max_exposure
         if isinstance(self._max_exposure, (int, float)):
-            if self._max_exposure <= 0:
+            # A not a number value is refused too
+            if not self._max_exposure > 0:
                 raise WrongValueForInputParameter(self._max_exposure, "max_exposure", ">0 or None")
         elif self._max_exposure is None:
             pass
@@ -271,7 +272,8 @@ class TradingSimulation:
 
         # Validate short_exposure_factor
         if isinstance(self._short_exposure_factor, (int, float)):
-            if self._short_exposure_factor < 1.0:
+            # A not a number value is refused too
+            if not self._short_exposure_factor >= 1.0:
                 raise WrongValueForInputParameter(
                     self._short_exposure_factor, "short_exposure_factor", ">=1.0"
                 )
-- 
2.43.0


From 690924bbfce94cf02e55f568ee74680206af683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 14/18] fix: getTiValue gives None for a value that is not a
 single date

---
 tti/indicators/_technical_indicator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 5a87037..cf5bca7 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -151,7 +151,13 @@ class TechnicalIndicator(ABC):
             if date is None:
                 return list(self._ti_data.iloc[-1, :])
             else:
-                return list(self._ti_data.loc[pd.to_datetime(date), :])
+                timestamp = pd.to_datetime(date)
+
+                # Several dates (list, tuple, ...) are not a valid date
+                if not isinstance(timestamp, pd.Timestamp):
+                    return None
+
+                return list(self._ti_data.loc[timestamp, :])
 
         except (Exception, ValueError):
             return None
-- 
2.43.0


From d12e99964a2cbd6902a46eeb9b4fb674d941403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 15/18] fix: indicators compute with the values of the input,
 whatever their numeric storage type

Unsigned columns wrapped around in differences, narrow ones overflowed,
single precision ones lost digits and pandas nullable ones raised
TypeErrors inside the indicators.
---
 tti/utils/data_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index eb83bce..1bad7d8 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -96,6 +96,10 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     # Remove not required columns, if any
     input_data = input_data.loc[:, input_data.columns.isin(required_columns)]
 
+    # Unsigned, narrow or nullable numbers would overflow or break the arithmetic
+    # of the indicators, their values are what counts
+    input_data = input_data.astype("float64")
+
     # Sort dataframe on index ascending
     input_data = input_data.sort_index(ascending=True, inplace=False)
 
-- 
2.43.0


From db9940ea2d13a5a8d355ce9b895523a3e601e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 16/18] fix: fill_missing_values=False holds for indicators
 built from other indicators

The inner indicators filled the missing values, backwards too, so that past
values depended on later data.
---
 tti/indicators/_chaikin_oscillator.py         |  4 +++-
 tti/indicators/_forecast_oscillator.py        |  4 +++-
 tti/indicators/_moving_average.py             | 14 ++++++++++----
 tti/indicators/_projection_oscillator.py      |  2 +-
 tti/indicators/_time_series_forecast.py       | 10 +++++++---
 tti/indicators/_vertical_horizontal_filter.py |  8 ++++++--
 6 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/tti/indicators/_chaikin_oscillator.py b/tti/indicators/_chaikin_oscillator.py
index 29bab19..d317654 100644
--- a/tti/indicators/_chaikin_oscillator.py
+++ b/tti/indicators/_chaikin_oscillator.py
@@ -70,7 +70,9 @@ class ChaikinOscillator(TechnicalIndicator):
 
         co = pd.DataFrame(index=self._input_data.index, columns=["co"], data=0, dtype="float64")
 
-        adl = AccumulationDistributionLine(self._input_data).getTiData()
+        adl = AccumulationDistributionLine(
+            self._input_data, fill_missing_values=False
+        ).getTiData()
 
         co["co"] = (
             adl.ewm(span=3, min_periods=3, adjust=False).mean()
diff --git a/tti/indicators/_forecast_oscillator.py b/tti/indicators/_forecast_oscillator.py
index c3d8ded..965f321 100644
--- a/tti/indicators/_forecast_oscillator.py
+++ b/tti/indicators/_forecast_oscillator.py
@@ -93,7 +93,9 @@ class ForecastOscillator(TechnicalIndicator):
             100
             * (
                 self._input_data["close"]
-                - TimeSeriesForecast(input_data=self._input_data, period=self._period)
+                - TimeSeriesForecast(
+                    input_data=self._input_data, period=self._period, fill_missing_values=False
+                )
                 .getTiData()["tsf"]
                 .shift(1)
             )
diff --git a/tti/indicators/_moving_average.py b/tti/indicators/_moving_average.py
index ae12bfe..273e03b 100644
--- a/tti/indicators/_moving_average.py
+++ b/tti/indicators/_moving_average.py
@@ -134,15 +134,19 @@ class MovingAverage(TechnicalIndicator):
                 pd.concat(
                     objs=[
                         LinearRegressionSlope(
-                            input_data=self._input_data, period=self._period
+                            input_data=self._input_data,
+                            period=self._period,
+                            fill_missing_values=False,
                         ).getTiData(),
                         LinearRegressionIndicator(
-                            input_data=self._input_data, period=self._period
+                            input_data=self._input_data,
+                            period=self._period,
+                            fill_missing_values=False,
                         ).getTiData(),
                     ],
                     axis=1,
                 )
-                .sum(axis=1)
+                .sum(axis=1, skipna=False)
                 .iloc[self._period - 1 :]
             )
 
@@ -157,7 +161,9 @@ class MovingAverage(TechnicalIndicator):
 
         elif self._ma_type == "variable":
             # Calculate CMO indicator for 9 periods by default
-            cmo = ChandeMomentumOscillator(input_data=self._input_data, period=9).getTiData()
+            cmo = ChandeMomentumOscillator(
+                input_data=self._input_data, period=9, fill_missing_values=False
+            ).getTiData()
 
             # Calculate Volatility Ratio
             vr = (cmo.iloc[:] / 100).abs()
diff --git a/tti/indicators/_projection_oscillator.py b/tti/indicators/_projection_oscillator.py
index 849fccd..3661559 100644
--- a/tti/indicators/_projection_oscillator.py
+++ b/tti/indicators/_projection_oscillator.py
@@ -90,7 +90,7 @@ class ProjectionOscillator(TechnicalIndicator):
 
         # Calculate Projection Bands
         projection_bands = ProjectionBands(
-            input_data=self._input_data, period=self._period
+            input_data=self._input_data, period=self._period, fill_missing_values=False
         ).getTiData()
 
         posc = pd.DataFrame(
diff --git a/tti/indicators/_time_series_forecast.py b/tti/indicators/_time_series_forecast.py
index aa932a4..cd952bb 100644
--- a/tti/indicators/_time_series_forecast.py
+++ b/tti/indicators/_time_series_forecast.py
@@ -94,15 +94,19 @@ class TimeSeriesForecast(TechnicalIndicator):
             pd.concat(
                 objs=[
                     LinearRegressionSlope(
-                        input_data=self._input_data, period=self._period
+                        input_data=self._input_data,
+                        period=self._period,
+                        fill_missing_values=False,
                     ).getTiData(),
                     LinearRegressionIndicator(
-                        input_data=self._input_data, period=self._period
+                        input_data=self._input_data,
+                        period=self._period,
+                        fill_missing_values=False,
                     ).getTiData(),
                 ],
                 axis=1,
             )
-            .sum(axis=1)
+            .sum(axis=1, skipna=False)
             .iloc[self._period - 1 :]
         )
 
diff --git a/tti/indicators/_vertical_horizontal_filter.py b/tti/indicators/_vertical_horizontal_filter.py
index af32803..f7a0f61 100644
--- a/tti/indicators/_vertical_horizontal_filter.py
+++ b/tti/indicators/_vertical_horizontal_filter.py
@@ -136,7 +136,9 @@ class VerticalHorizontalFilter(TechnicalIndicator):
             if len(self._input_data.index) < 5:
                 return TRADE_SIGNALS["hold"]
             else:
-                return DoubleExponentialMovingAverage(self._input_data, period=5).getTiSignal()
+                return DoubleExponentialMovingAverage(
+                    self._input_data, period=5, fill_missing_values=False
+                ).getTiSignal()
 
         # Falling values indicate a ranging market
         if (
@@ -148,6 +150,8 @@ class VerticalHorizontalFilter(TechnicalIndicator):
             if len(self._input_data.index) < 12:
                 return TRADE_SIGNALS["hold"]
             else:
-                return Momentum(self._input_data, period=12).getTiSignal()
+                return Momentum(
+                    self._input_data, period=12, fill_missing_values=False
+                ).getTiSignal()
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 776d894e5531fd38c85e0f4c0bfecf836237b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 17/18] fix: an interrupted simulation leaves the indicator
 with its full data

---
 tti/indicators/_technical_indicator.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index cf5bca7..de82329 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -416,17 +416,22 @@ class TechnicalIndicator(ABC):
         full_input_data = self._input_data
 
         # Run simulation rounds for the whole period
-        for i in range(len(self._ti_data.index)):
-            # Limit the input and indicator data to this simulation round
-            self._input_data = full_input_data[full_input_data.index <= full_input_data.index[i]]
+        try:
+            for i in range(len(full_ti_data.index)):
+                # Limit the input and indicator data to this simulation round
+                self._input_data = full_input_data[
+                    full_input_data.index <= full_input_data.index[i]
+                ]
 
-            self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
+                self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
 
-            simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
+                simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
 
-        # Restore input and indicator data to full range
-        self._ti_data = full_ti_data
-        self._input_data = full_input_data
+        finally:
+            # Restore input and indicator data to full range, also when the
+            # simulation is interrupted
+            self._ti_data = full_ti_data
+            self._input_data = full_input_data
 
         simulation_data, statistics = simulator.closeSimulation()
 
-- 
2.43.0


From 9aa82577e172a96b1654f54b043b0de4cc4cc9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 18/18] fix: changing the DataFrame returned by getTiData does
 not change the indicator

---
 tti/indicators/_technical_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index de82329..d01d9cf 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -131,7 +131,7 @@ class TechnicalIndicator(ABC):
             pandas.DataFrame: The Technical Indicator values.
         """
 
-        return self._ti_data
+        return self._ti_data.copy()
 
     def getTiValue(self, date=None):
         """
-- 
2.43.0

