------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* The documented interface of every indicator.                            *)
(*   inputs  : required columns of the input data                          *)
(*   params  : constructor parameters in positional order, after           *)
(*             input_data and before fill_missing_values.  kind:           *)
(*               int       integer, not smaller than min                   *)
(*               oneof     integer, one of choices                         *)
(*               positive  integer or float greater than 0                 *)
(*               fraction  float strictly between 0 and 1                  *)
(*               number    integer or float                                *)
(*               str       string, one of choices                          *)
(*   title, label, plotted, panels : the graph                             *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

Catalog == [
  AccumulationDistributionLine |->
    [family |-> "vol", inputs |-> <<"close", "volume", "high", "low">>,
     params |-> <<>>,
     title |-> "Accumulation Distribution Line", label |-> "ADL | Price", plotted |-> <<"close">>, panels |-> 2],
  AverageTrueRange |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Average True Range", label |-> "ATR | Price", plotted |-> <<"close">>, panels |-> 2],
  BollingerBands |->
    [family |-> "chan", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "20"],
                  [name |-> "std_number", kind |-> "positive", min |-> 0, choices |-> {}, default |-> "2"]>>,
     title |-> "Bollinger Bands", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  ChaikinMoneyFlow |->
    [family |-> "vol", inputs |-> <<"close", "volume", "high", "low">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Chaikin Money Flow", label |-> "CMF | Price", plotted |-> <<"close">>, panels |-> 2],
  ChaikinOscillator |->
    [family |-> "vol", inputs |-> <<"close", "volume", "high", "low">>,
     params |-> <<>>,
     title |-> "Chaikin Oscillator", label |-> "CO | Price", plotted |-> <<"close">>, panels |-> 2],
  ChandeMomentumOscillator |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Chande Momentum Oscillator", label |-> "CMO | Price", plotted |-> <<"close">>, panels |-> 2],
  CommodityChannelIndex |->
    [family |-> "osc", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Commodity Channel Index", label |-> "CCI | Price", plotted |-> <<"close">>, panels |-> 2],
  DetrendedPriceOscillator |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "6"]>>,
     title |-> "Detrended Price Oscillator", label |-> "DPO | Price", plotted |-> <<"close">>, panels |-> 2],
  DirectionalMovementIndex |->
    [family |-> "path", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Directional Movement Index", label |-> "DMI | Price", plotted |-> <<"close">>, panels |-> 2],
  DoubleExponentialMovingAverage |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Double Exponential Moving Average", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  EaseOfMovement |->
    [family |-> "vol", inputs |-> <<"high", "low", "volume">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "40"]>>,
     title |-> "Ease Of Movement", label |-> "EMV", plotted |-> <<>>, panels |-> 1],
  Envelopes |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "20"],
                  [name |-> "shift", kind |-> "fraction", min |-> 0, choices |-> {}, default |-> "1/10"]>>,
     title |-> "Envelopes (Trading Bands)", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  FibonacciRetracement |->
    [family |-> "chan", inputs |-> <<"close">>,
     params |-> <<>>,
     title |-> "Fibonacci Retracement", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  ForecastOscillator |->
    [family |-> "path", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 2, choices |-> {}, default |-> "14"]>>,
     title |-> "Forecast Oscillator", label |-> "FOSC | Price", plotted |-> <<"close">>, panels |-> 2],
  IchimokuCloud |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Ichimoku Cloud", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  IntradayMomentumIndex |->
    [family |-> "osc", inputs |-> <<"open", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "14"]>>,
     title |-> "Intraday Momentum Index", label |-> "IMI | Price", plotted |-> <<"close">>, panels |-> 2],
  KlingerOscillator |->
    [family |-> "vol", inputs |-> <<"high", "low", "close", "volume">>,
     params |-> <<>>,
     title |-> "Klinger Oscillator", label |-> "KO | Price", plotted |-> <<"close">>, panels |-> 2],
  LinearRegressionIndicator |->
    [family |-> "path", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 2, choices |-> {}, default |-> "14"]>>,
     title |-> "Linear Regression Indicator", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  LinearRegressionSlope |->
    [family |-> "path", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "14"]>>,
     title |-> "Linear Regression Slope", label |-> "LRS | Price", plotted |-> <<"close">>, panels |-> 2],
  MarketFacilitationIndex |->
    [family |-> "vol", inputs |-> <<"high", "low", "volume">>,
     params |-> <<>>,
     title |-> "Market Facilitation Index", label |-> "MFI | Volume", plotted |-> <<"volume">>, panels |-> 2],
  MassIndex |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Mass Index", label |-> "MI | Price", plotted |-> <<"close", "9_ema">>, panels |-> 2],
  MedianPrice |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "20"]>>,
     title |-> "Median Price", label |-> "Price", plotted |-> <<"close_ema">>, panels |-> 1],
  Momentum |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "12"]>>,
     title |-> "Momentum", label |-> "MOM | Price", plotted |-> <<"close">>, panels |-> 2],
  MovingAverage |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "20"],
                  [name |-> "ma_type", kind |-> "str", min |-> 0, choices |-> {"simple", "exponential", "time_series", "triangular", "variable"}, default |-> "simple"]>>,
     title |-> "Moving Average", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  MovingAverageConvergenceDivergence |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<>>,
     title |-> "Moving Average Convergence Divergence", label |-> "MACD | Price", plotted |-> <<"close">>, panels |-> 2],
  NegativeVolumeIndex |->
    [family |-> "vol", inputs |-> <<"close", "volume">>,
     params |-> <<>>,
     title |-> "Negative Volume Index", label |-> "NVI | Price", plotted |-> <<"close">>, panels |-> 2],
  OnBalanceVolume |->
    [family |-> "vol", inputs |-> <<"close", "volume">>,
     params |-> <<>>,
     title |-> "On Balance Volume", label |-> "Volume | Price", plotted |-> <<"close">>, panels |-> 2],
  ParabolicSAR |->
    [family |-> "path", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Parabolic SAR", label |-> "PSAR", plotted |-> <<"close">>, panels |-> 1],
  Performance |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "mode", kind |-> "str", min |-> 0, choices |-> {"LONG", "SHORT"}, default |-> "LONG"],
                  [name |-> "target", kind |-> "number", min |-> 0, choices |-> {}, default |-> "1/20"]>>,
     title |-> "Performance", label |-> "PERF | Price", plotted |-> <<"close">>, panels |-> 2],
  PositiveVolumeIndex |->
    [family |-> "vol", inputs |-> <<"close", "volume">>,
     params |-> <<>>,
     title |-> "Positive Volume Index", label |-> "PVI | Price", plotted |-> <<"close">>, panels |-> 2],
  PriceAndVolumeTrend |->
    [family |-> "vol", inputs |-> <<"close", "volume">>,
     params |-> <<>>,
     title |-> "Price And Volume Trend", label |-> "PVT | Price", plotted |-> <<"close">>, panels |-> 2],
  PriceChannel |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Price Channel", label |-> "PCH", plotted |-> <<"close">>, panels |-> 1],
  PriceOscillator |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "long_ma", kind |-> "int", min |-> 1, choices |-> {}, default |-> "30"],
                  [name |-> "short_ma", kind |-> "int", min |-> 1, choices |-> {}, default |-> "10"]>>,
     title |-> "Price Oscillator", label |-> "POSC | Price", plotted |-> <<"close">>, panels |-> 2],
  PriceRateOfChange |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "25"]>>,
     title |-> "Price Rate Of Change", label |-> "PRC | Price", plotted |-> <<"close">>, panels |-> 2],
  ProjectionBands |->
    [family |-> "path", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 2, choices |-> {}, default |-> "14"]>>,
     title |-> "Projection Bands", label |-> "PBS", plotted |-> <<"close">>, panels |-> 1],
  ProjectionOscillator |->
    [family |-> "path", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 2, choices |-> {}, default |-> "14"]>>,
     title |-> "Projection Oscillator", label |-> "POSC | Price", plotted |-> <<"close">>, panels |-> 2],
  Qstick |->
    [family |-> "ma", inputs |-> <<"open", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "8"]>>,
     title |-> "Qstick", label |-> "QST | Price", plotted |-> <<"close">>, panels |-> 2],
  RangeIndicator |->
    [family |-> "osc", inputs |-> <<"high", "low", "close", "volume">>,
     params |-> <<[name |-> "range_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"],
                  [name |-> "smoothing_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "3"]>>,
     title |-> "Range Indicator", label |-> "RI | Price", plotted |-> <<"close">>, panels |-> 2],
  RelativeMomentumIndex |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "8"],
                  [name |-> "momentum_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "4"]>>,
     title |-> "Relative Momentum Index", label |-> "RMI | Price", plotted |-> <<"close">>, panels |-> 2],
  RelativeStrengthIndex |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "14"]>>,
     title |-> "Relative Strength Index", label |-> "RSI | Price", plotted |-> <<"close">>, panels |-> 2],
  RelativeVolatilityIndex |->
    [family |-> "osc", inputs |-> <<"high", "low">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Relative Volatility Index", label |-> "RVI | Price", plotted |-> <<"high", "low">>, panels |-> 2],
  StandardDeviation |->
    [family |-> "chan", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "20"]>>,
     title |-> "Standard Deviation", label |-> "SD | Price", plotted |-> <<"close">>, panels |-> 2],
  StochasticMomentumIndex |->
    [family |-> "osc", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"],
                  [name |-> "smoothing_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "3"],
                  [name |-> "double_smoothing_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "3"]>>,
     title |-> "Stochastic Momentum Index", label |-> "SMI | Price", plotted |-> <<"close">>, panels |-> 2],
  StochasticOscillator |->
    [family |-> "osc", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "k_periods", kind |-> "int", min |-> 1, choices |-> {}, default |-> "14"],
                  [name |-> "k_slowing_periods", kind |-> "oneof", min |-> 0, choices |-> {1, 3}, default |-> "1"],
                  [name |-> "d_periods", kind |-> "int", min |-> 1, choices |-> {}, default |-> "3"],
                  [name |-> "d_method", kind |-> "str", min |-> 0, choices |-> {"simple", "exponential"}, default |-> "simple"]>>,
     title |-> "Stochastic Oscillator", label |-> "Percentage | Price", plotted |-> <<"close">>, panels |-> 2],
  SwingIndex |->
    [family |-> "osc", inputs |-> <<"open", "high", "low", "close">>,
     params |-> <<>>,
     title |-> "Swing Index", label |-> "SWI | Price", plotted |-> <<"close">>, panels |-> 2],
  TimeSeriesForecast |->
    [family |-> "path", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 2, choices |-> {}, default |-> "14"]>>,
     title |-> "Time Series Forecast", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  TripleExponentialMovingAverage |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Triple Exponential Moving Average", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  TypicalPrice |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "200"]>>,
     title |-> "TypicalPrice", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  UltimateOscillator |->
    [family |-> "osc", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Ultimate Oscillator", label |-> "UOSC | Price", plotted |-> <<"close">>, panels |-> 2],
  VerticalHorizontalFilter |->
    [family |-> "osc", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Vertical Horizontal Filter", label |-> "VHF | Price", plotted |-> <<"close">>, panels |-> 2],
  VolatilityChaikins |->
    [family |-> "chan", inputs |-> <<"high", "low">>,
     params |-> <<[name |-> "ema_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "10"],
                  [name |-> "change_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "10"]>>,
     title |-> "Volatility Chaikins", label |-> "VCH", plotted |-> <<>>, panels |-> 1],
  VolumeOscillator |->
    [family |-> "ma", inputs |-> <<"volume">>,
     params |-> <<[name |-> "long_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"],
                  [name |-> "short_period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "2"]>>,
     title |-> "Volume Oscillator", label |-> "VOSC | Volume", plotted |-> <<"volume">>, panels |-> 2],
  VolumeRateOfChange |->
    [family |-> "osc", inputs |-> <<"volume">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Volume Rate Of Change", label |-> "VROC | Volume", plotted |-> <<"volume">>, panels |-> 2],
  WeightedClose |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "WeightedClose", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  WildersSmoothing |->
    [family |-> "ma", inputs |-> <<"close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Wilders Smoothing", label |-> "Price", plotted |-> <<"close">>, panels |-> 1],
  WilliamsAccumulationDistribution |->
    [family |-> "chan", inputs |-> <<"high", "low", "close">>,
     params |-> <<>>,
     title |-> "Williams Accumulation Distribution", label |-> "WAD | Price", plotted |-> <<"close">>, panels |-> 2],
  WilliamsR |->
    [family |-> "osc", inputs |-> <<"high", "low", "close">>,
     params |-> <<[name |-> "period", kind |-> "int", min |-> 1, choices |-> {}, default |-> "5"]>>,
     title |-> "Williams %R", label |-> "WR | Price", plotted |-> <<"close">>, panels |-> 2]
]
Names == DOMAIN Catalog
ParamNames(name) == {Catalog[name].params[i].name : i \in 1 .. Len(Catalog[name].params)}

(* Constraints between parameters, for parameters that are acceptable one by one. *)
PairOk(name, p) ==
  CASE name = "PriceOscillator" -> p.short_ma < p.long_ma
    [] name = "VolumeOscillator" -> p.short_period < p.long_period
    [] name = "MovingAverage" -> p.ma_type = "time_series" => p.period >= 2
    [] name = "Performance" -> IF p.mode = "LONG" THEN RGe(p.target, 0) ELSE RLe(p.target, 0)
    [] OTHER -> TRUE

Max2(a, b) == IF a > b THEN a ELSE b
\* the smallest accepted number of rows
MinRows(name, p) ==
  CASE name \in {"AccumulationDistributionLine", "FibonacciRetracement", "IchimokuCloud", "MarketFacilitationIndex",
                 "MedianPrice", "OnBalanceVolume", "Performance", "SwingIndex", "TypicalPrice", "WeightedClose",
                 "WilliamsAccumulationDistribution"} -> 1
    [] name = "AverageTrueRange" -> 14
    [] name = "ChaikinOscillator" -> 10
    [] name \in {"DirectionalMovementIndex", "UltimateOscillator"} -> 28
    [] name = "EaseOfMovement" -> Max2(p.period, 2)
    [] name = "KlingerOscillator" -> 55
    [] name = "MassIndex" -> 25
    [] name = "MovingAverageConvergenceDivergence" -> 26
    [] name \in {"NegativeVolumeIndex", "PositiveVolumeIndex", "PriceAndVolumeTrend", "ParabolicSAR"} -> 2
    [] name = "MovingAverage" -> IF p.ma_type = "variable" THEN 22 ELSE p.period
    [] name = "PriceOscillator" -> p.long_ma
    [] name = "VolumeOscillator" -> p.long_period
    [] name = "RangeIndicator" -> Max2(p.range_period, p.smoothing_period)
    [] name = "RelativeMomentumIndex" -> p.period + p.momentum_period
    [] name = "RelativeStrengthIndex" -> p.period + 1
    [] name = "RelativeVolatilityIndex" -> p.period + 10
    [] name = "StochasticOscillator" -> p.k_periods
    [] name = "VolatilityChaikins" -> Max2(p.ema_period, p.change_period)
    [] OTHER -> p.period

\* names of the columns of the indicator data, in order
Columns(name, p) ==
  CASE name = "AccumulationDistributionLine" -> <<"adl">>
    [] name = "AverageTrueRange" -> <<"atr">>
    [] name = "BollingerBands" -> <<"middle_band", "upper_band", "lower_band">>
    [] name = "ChaikinMoneyFlow" -> <<"cmf">>
    [] name = "ChaikinOscillator" -> <<"co">>
    [] name = "ChandeMomentumOscillator" -> <<"cmo">>
    [] name = "CommodityChannelIndex" -> <<"cci">>
    [] name = "DetrendedPriceOscillator" -> <<"dpo">>
    [] name = "DirectionalMovementIndex" -> <<"+di", "-di", "dx", "adx", "adxr">>
    [] name = "DoubleExponentialMovingAverage" -> <<"dema">>
    [] name = "EaseOfMovement" -> <<"emv", "emv_ma">>
    [] name \in {"Envelopes", "ProjectionBands"} -> <<"upper_band", "lower_band">>
    [] name = "FibonacciRetracement" -> <<"rl_0.0", "rl_23.6", "rl_38.2", "rl_50.0", "rl_61.8", "rl_100.0">>
    [] name = "ForecastOscillator" -> <<"fosc">>
    [] name = "IchimokuCloud" -> <<"tenkan_sen", "kijun_sen", "senkou_a", "senkou_b">>
    [] name = "IntradayMomentumIndex" -> <<"imi">>
    [] name = "KlingerOscillator" -> <<"ko">>
    [] name = "LinearRegressionIndicator" -> <<"lri">>
    [] name = "LinearRegressionSlope" -> <<"lrs">>
    [] name = "MarketFacilitationIndex" -> <<"mfi">>
    [] name = "MassIndex" -> <<"mi">>
    [] name = "MedianPrice" -> <<"mp">>
    [] name = "Momentum" -> <<"mom">>
    [] name = "MovingAverage" -> <<"ma-" \o p.ma_type>>
    [] name = "MovingAverageConvergenceDivergence" -> <<"macd", "signal_line">>
    [] name = "NegativeVolumeIndex" -> <<"nvi">>
    [] name = "OnBalanceVolume" -> <<"obv">>
    [] name = "ParabolicSAR" -> <<"sar">>
    [] name = "Performance" -> <<"prf", "target_" \o p.mode>>
    [] name = "PositiveVolumeIndex" -> <<"pvi">>
    [] name = "PriceAndVolumeTrend" -> <<"pvt">>
    [] name = "PriceChannel" -> <<"highest_high", "lowest_low">>
    [] name = "PriceOscillator" -> <<"posc">>
    [] name = "PriceRateOfChange" -> <<"prc">>
    [] name = "ProjectionOscillator" -> <<"posc", "trigger_line">>
    [] name = "Qstick" -> <<"qstick">>
    [] name = "RangeIndicator" -> <<"ri">>
    [] name = "RelativeMomentumIndex" -> <<"rmi">>
    [] name = "RelativeStrengthIndex" -> <<"rsi">>
    [] name = "RelativeVolatilityIndex" -> <<"rvi">>
    [] name = "StandardDeviation" -> <<"sd">>
    [] name = "StochasticMomentumIndex" -> <<"smi">>
    [] name = "StochasticOscillator" -> <<"%K", "%D">>
    [] name = "SwingIndex" -> <<"swi">>
    [] name = "TimeSeriesForecast" -> <<"tsf">>
    [] name = "TripleExponentialMovingAverage" -> <<"tema">>
    [] name = "TypicalPrice" -> <<"tp">>
    [] name = "UltimateOscillator" -> <<"uosc">>
    [] name = "VerticalHorizontalFilter" -> <<"vhf">>
    [] name = "VolatilityChaikins" -> <<"vch">>
    [] name = "VolumeOscillator" -> <<"vosc">>
    [] name = "VolumeRateOfChange" -> <<"vrc">>
    [] name = "WeightedClose" -> <<"wc">>
    [] name = "WildersSmoothing" -> <<"ws">>
    [] name = "WilliamsAccumulationDistribution" -> <<"wad">>
    [] name = "WilliamsR" -> <<"wr">>
\* decimals of the published values; -1: not rounded
Decimals(name) == CASE name = "MarketFacilitationIndex" -> 10
                    [] name = "OnBalanceVolume" -> -1
                    [] name = "AccumulationDistributionLine" -> 0
                    [] OTHER -> 4
\* number of dates at the end of the data for which the indicator has no row
Omitted(name, p) == IF name = "DetrendedPriceOscillator" THEN p.period \div 2 + 1 ELSE 0
=============================================================================
