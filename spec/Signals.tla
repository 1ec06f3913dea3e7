------------------------------- MODULE Signals -------------------------------
(***************************************************************************)
(* The trading signal of every indicator.                                  *)
(*                                                                         *)
(* Signals(name, p, x, ti) is the set of signals the indicator may give    *)
(* at the end of the market data x (no missing values), when ti is its     *)
(* published (rounded) data: a function from column name to series.  It    *)
(* has one element, except where the rule compares an average that is not  *)
(* published, and that average ties within 1e-9: then both outcomes of the *)
(* comparison are allowed.                                                 *)
(*                                                                         *)
(* A comparison with a missing value is false.  At(s, 0) is the value of   *)
(* the latest row, At(s, 1) of the row before, and so on.                  *)
(***************************************************************************)
EXTENDS Indicators

Buy == "buy"    Hold == "hold"    Sell == "sell"

At(s, k) == s[Len(s) - k]
LastOf(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
Above(a, b) == RLt(b, a)
Below(a, b) == RLt(a, b)

\* the series goes from strictly below the level to strictly above it on the latest row, and vice versa
UpThrough(s, level)   == Below(At(s, 1), level) /\ Above(At(s, 0), level)
DownThrough(s, level) == Above(At(s, 1), level) /\ Below(At(s, 0), level)
\* the same for one series a against another series b
CrossUp(a, b)   == Below(At(a, 1), At(b, 1)) /\ Above(At(a, 0), At(b, 0))
CrossDown(a, b) == Above(At(a, 1), At(b, 1)) /\ Below(At(a, 0), At(b, 0))
\* consecutive values over the last three rows
Rising3(s)  == Below(At(s, 2), At(s, 1)) /\ Below(At(s, 1), At(s, 0))
Falling3(s) == Above(At(s, 2), At(s, 1)) /\ Above(At(s, 1), At(s, 0))

One(b, s) == IF b THEN Buy ELSE IF s THEN Sell ELSE Hold          \* buy rule first
OneS(s, b) == IF s THEN Sell ELSE IF b THEN Buy ELSE Hold         \* sell rule first

\* numbers whose product with a rounded decimal factor is exact in floats
Dyadic(v) == RIsFin(v) /\ LET y == RMul(v, 65536) IN RTrunc(y) = y
\* possible values of an unpublished average; exact while its input never changed
Constant(s) == \A i \in 2 .. Len(s) : s[i] = s[1]
Blur(v, exact) == IF exact \/ ~RIsFin(v) THEN {v} ELSE {v, RSub(v, Eps), RAdd(v, Eps)}

\* average of the present values, when there are at least k of them
PresentMean(s, k) == LET q == Present(s) IN IF Len(q) < k THEN "nan" ELSE Mean(q)
Tail90(x) == PresentMean(LastOf(x.close, 90), 1)

(* ------------------------------ crossing signals ------------------------ *)
\* zero line
ZeroUpBuys   == [DetrendedPriceOscillator |-> "dpo", EaseOfMovement |-> "emv_ma", PriceOscillator |-> "posc"]
ZeroUpSells  == [ForecastOscillator |-> "fosc", KlingerOscillator |-> "ko", LinearRegressionSlope |-> "lrs", SwingIndex |-> "swi"]
\* rising into overbought sells, falling into oversold buys
Bands == [ChandeMomentumOscillator |-> [c |-> "cmo", low |-> -50, high |-> 50],
          IntradayMomentumIndex    |-> [c |-> "imi", low |-> 30, high |-> 70],
          RelativeMomentumIndex    |-> [c |-> "rmi", low |-> 30, high |-> 70],
          RelativeStrengthIndex    |-> [c |-> "rsi", low |-> 30, high |-> 70],
          RelativeVolatilityIndex  |-> [c |-> "rvi", low |-> 40, high |-> 60],
          StochasticMomentumIndex  |-> [c |-> "smi", low |-> -40, high |-> 40]]
\* the close crossing the published line
PriceUpSells == [LinearRegressionIndicator |-> "lri", TimeSeriesForecast |-> "tsf", WeightedClose |-> "wc", WildersSmoothing |-> "ws"]

Crossing(name, p, x, ti) ==
  CASE name \in DOMAIN ZeroUpBuys -> LET s == ti[ZeroUpBuys[name]] IN {One(UpThrough(s, 0), DownThrough(s, 0))}
    [] name \in DOMAIN ZeroUpSells -> LET s == ti[ZeroUpSells[name]] IN {One(DownThrough(s, 0), UpThrough(s, 0))}
    [] name \in DOMAIN Bands -> LET b == Bands[name] IN {One(DownThrough(ti[b.c], b.low), UpThrough(ti[b.c], b.high))}
    [] name \in DOMAIN PriceUpSells ->
         LET s == ti[PriceUpSells[name]] IN {One(CrossDown(x.close, s), CrossUp(x.close, s))}
    [] name = "ParabolicSAR" -> {One(CrossUp(x.close, ti["sar"]), CrossDown(x.close, ti["sar"]))}
    [] name = "FibonacciRetracement" ->
         LET levels == {"rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6"}
         IN {One(\E k \in levels : CrossDown(x.close, ti[k]), \E k \in levels : CrossUp(x.close, ti[k]))}
    [] name = "DirectionalMovementIndex" ->
         LET strong == RLe(20, At(ti["adxr"], 0))
         IN {OneS(strong /\ CrossDown(ti["+di"], ti["-di"]), strong /\ CrossUp(ti["+di"], ti["-di"]))}
    [] name = "MovingAverageConvergenceDivergence" ->
         LET m == ti["macd"]  s == ti["signal_line"]
         IN {IF UpThrough(m, 0) THEN Buy ELSE IF DownThrough(m, 0) THEN Sell
             ELSE One(CrossUp(m, s), CrossDown(m, s))}
    [] name = "StochasticOscillator" ->
         LET k == ti["%K"]  d == ti["%D"]
             ch == RSub(At(k, 1), At(k, 0))           \* yesterday minus today
             gap == RSub(At(k, 0), At(d, 0))
         IN {IF DownThrough(k, 80) \/ DownThrough(d, 80) THEN Sell
             ELSE IF UpThrough(k, 20) \/ UpThrough(d, 20) THEN Buy
             ELSE OneS(Above(ch, 0) /\ Below(gap, 0) /\ Above(At(k, 0), 80),
                       Below(ch, 0) /\ Above(gap, 0) /\ Below(At(k, 0), 20))}
    [] name = "MedianPrice" ->
         \* the average of the close crossing the median price, once period rows are there
         IF N(x) < p.period THEN {Hold}
         ELSE LET e == Ema(x.close, p.period)  m == ti["mp"]
              IN {One(Below(a, At(m, 1)) /\ Above(b, At(m, 0)), Above(a, At(m, 1)) /\ Below(b, At(m, 0)))
                    : a \in Blur(At(e, 1), Constant(x.close) \/ p.period = 1),
                      b \in Blur(At(e, 0), Constant(x.close) \/ p.period = 1)}
    [] name = "Momentum" ->
         IF N(x) < 9 THEN {Hold}
         ELSE LET m == ti["mom"]  e == Ema(m, 9)
                  c == Constant(Present(m))
              IN {OneS(Below(At(m, 1), a) /\ Above(At(m, 0), b), Above(At(m, 1), a) /\ Below(At(m, 0), b))
                    : a \in Blur(At(e, 1), c), b \in Blur(At(e, 0), c)}
    [] name = "PositiveVolumeIndex" ->
         IF N(x) < 255 THEN {Hold}
         ELSE LET v == ti["pvi"]  e == Ema(v, 255)
              IN {One(Below(At(v, 1), a) /\ Above(At(v, 0), b), Above(At(v, 1), a) /\ Below(At(v, 0), b))
                    : a \in Blur(At(e, 1), Constant(v)), b \in Blur(At(e, 0), Constant(v))}
CrossingNames == DOMAIN ZeroUpBuys \cup DOMAIN ZeroUpSells \cup DOMAIN Bands \cup DOMAIN PriceUpSells
  \cup {"ParabolicSAR", "FibonacciRetracement", "DirectionalMovementIndex", "MovingAverageConvergenceDivergence",
        "StochasticOscillator", "MedianPrice", "Momentum", "PositiveVolumeIndex"}

(* --------------------- signals of the latest row ------------------------ *)
\* the close outside a channel
Channels == [BollingerBands |-> [up |-> "upper_band", low |-> "lower_band"],
             Envelopes |-> [up |-> "upper_band", low |-> "lower_band"],
             PriceChannel |-> [up |-> "highest_high", low |-> "lowest_low"]]
Latest(name, p, x, ti) ==
  LET close == At(x.close, 0) IN
  CASE name \in DOMAIN Channels ->
         {OneS(Above(close, At(ti[Channels[name].up], 0)), Below(close, At(ti[Channels[name].low], 0)))}
    [] name = "CommodityChannelIndex" -> {One(Below(At(ti["cci"], 0), -100), Above(At(ti["cci"], 0), 100))}
    [] name = "DoubleExponentialMovingAverage" -> {One(Below(close, At(ti["dema"], 0)), FALSE)}
    [] name = "TripleExponentialMovingAverage" -> {One(Below(close, At(ti["tema"], 0)), Above(close, At(ti["tema"], 0)))}
    [] name = "MovingAverage" -> {One(Above(close, At(ti["ma-" \o p.ma_type], 0)), FALSE)}
    [] name = "Performance" ->
         LET v == RRound(At(ti["prf"], 0), 12) IN
         {IF p.mode = "LONG" THEN OneS(RLe(p.target, v), FALSE) ELSE One(RLe(v, p.target), FALSE)}
    [] name = "ProjectionBands" ->
         LET up == At(ti["upper_band"], 0)  low == At(ti["lower_band"], 0)
             margin == RMul("15/100", RSub(up, low))
             exact == Dyadic(up) /\ Dyadic(low) /\ Dyadic(margin)
         IN {OneS(Below(RSub(up, close), m), Below(RSub(close, low), m)) : m \in Blur(margin, exact)}
    [] name = "StandardDeviation" ->
         LET wide == Above(At(ti["sd"], 0), 2)
             sma == RRound(At(RollMean(x.close, p.period), 0), 4)
         IN {OneS(wide /\ Above(close, sma), wide /\ Below(close, sma))}
    [] name = "TypicalPrice" ->
         IF N(x) < p.period THEN {Hold}
         ELSE {One(Above(At(ti["tp"], 0), At(RollMean(x.close, p.period), 0)), FALSE)}
    [] name = "AverageTrueRange" ->
         IF N(x) < 10 THEN {Hold}
         ELSE LET low == RMul("1/100", close)
                  s5 == At(RollMean(x.close, 5), 0)
                  s10 == PresentMean(LastOf(x.close, 10), 5)
              IN {IF ~Above(At(ti["atr"], 0), m) THEN Hold
                  ELSE IF Above(close, s5) THEN (IF Above(close, s10) THEN Buy ELSE Sell)
                  ELSE IF Below(close, s5) THEN Buy ELSE Hold : m \in Blur(low, Dyadic(low))}
    [] name = "NegativeVolumeIndex" ->
         IF N(x) < 255 THEN {Hold}
         ELSE {One(Above(At(ti["nvi"], 0), a), FALSE) : a \in Blur(At(Ema(ti["nvi"], 255), 0), Constant(ti["nvi"]))}
LatestNames == DOMAIN Channels \cup
  {"CommodityChannelIndex", "DoubleExponentialMovingAverage", "TripleExponentialMovingAverage", "MovingAverage",
   "Performance", "ProjectionBands", "StandardDeviation", "TypicalPrice", "AverageTrueRange", "NegativeVolumeIndex"}

(* ------------------------------ pattern signals ------------------------- *)
\* three consecutive falling values buy, three rising values sell
ThreeFallingBuys == [OnBalanceVolume |-> "obv", PriceAndVolumeTrend |-> "pvt", PriceRateOfChange |-> "prc", VolumeRateOfChange |-> "vrc"]
FirstIndex(s, v) == CHOOSE i \in 1 .. Len(s) : s[i] = v /\ \A j \in 1 .. (i - 1) : s[j] # v
\* position of a value relative to the cloud between a and b: -1 below, 0 inside, 1 above, 0 without a cloud
InCloud(v, a, b) == IF a = "nan" \/ b = "nan" \/ v = "nan" THEN 0
                    ELSE IF RLe(v, RMin(a, b)) THEN -1 ELSE IF RLe(v, RMax(a, b)) THEN 0 ELSE 1
\* the mass index has fallen below 26.5 after having exceeded 27 and without having been below 26.5 in between
Bulge(mi) ==
  /\ Below(At(mi, 0), "53/2")
  /\ \E i \in 1 .. (Len(mi) - 1) : /\ Above(mi[i], 27)
                                   /\ \A j \in i .. (Len(mi) - 1) : ~Below(mi[j], "53/2")

\* possible published values where the float result may fall on either side of a rounding boundary
DemaSignals(x) ==
  LET v == At(DoubleEma(x.close, 5), 0)
  IN {One(Below(At(x.close, 0), w), FALSE) : w \in {RRound(v, 4), RoundLo(v), RoundHi(v)}}
MomSignals(x) ==
  LET m == [i \in 1 .. N(x) |-> IF i <= 12 THEN "nan" ELSE RRound(RDiv(RMul(100, x.close[i]), x.close[i - 12]), 4)]
  IN Crossing("Momentum", [period |-> 12], x, [mom |-> m])

Pattern(name, p, x, ti) ==
  LET close == At(x.close, 0) IN
  CASE name \in DOMAIN ThreeFallingBuys -> LET s == ti[ThreeFallingBuys[name]] IN {One(Falling3(s), Rising3(s))}
    [] name = "AccumulationDistributionLine" ->
         \* the line's sign against a price change: same direction or positive line on a falling price buys
         LET up == Above(close, At(x.close, 1))  down == Below(close, At(x.close, 1))  v == At(ti["adl"], 0)
         IN {One((down \/ up) /\ Above(v, 0), (down \/ up) /\ Below(v, 0))}
    [] name = "ChaikinMoneyFlow" ->
         LET c == ti["cmf"]
             higher == Above(close, At(x.close, 1)) /\ Above(close, At(x.close, 2))
             lower == Below(close, At(x.close, 1)) /\ Below(close, At(x.close, 2))
         IN {OneS(Above(At(c, 1), At(c, 0)) /\ higher, Below(At(c, 1), At(c, 0)) /\ lower)}
    [] name = "ChaikinOscillator" ->
         IF N(x) < 90 THEN {Hold}
         ELSE LET c == ti["co"]
                  rising == Below(At(c, 1), At(c, 0)) /\ Below(At(c, 0), 0)
                  falling == Above(At(c, 1), At(c, 0)) /\ Above(At(c, 0), 0)
              IN {One(Above(close, Tail90(x)) /\ rising, Below(close, Tail90(x)) /\ falling)}
    [] name = "IchimokuCloud" ->
         LET t == ti["tenkan_sen"]  k == ti["kijun_sen"]
             a == At(ti["senkou_a"], 0)  b == At(ti["senkou_b"], 0)
             where == InCloud(close, a, b) + InCloud(At(t, 0), a, b) + InCloud(At(k, 0), a, b)
         IN {One(CrossUp(t, k) /\ where = 3, CrossDown(t, k) /\ where = -3)}
    [] name = "MarketFacilitationIndex" ->
         LET m == ti["mfi"] IN {One(Above(At(m, 1), At(m, 0)), Below(At(m, 1), At(m, 0)))}
    [] name = "MassIndex" ->
         IF ~Bulge(ti["mi"]) THEN {Hold}
         ELSE LET e == Ema(x.close, 9)
              IN {OneS(Below(At(e, 1), b), Above(At(e, 1), b)) : b \in Blur(At(e, 0), Constant(x.close))}
    [] name = "ProjectionOscillator" ->
         LET o == ti["posc"]  g == ti["trigger_line"]
             above(i) == Above(At(o, i), At(g, i))
             below(i) == Below(At(o, i), At(g, i))
         IN {IF UpThrough(o, 15) THEN Buy ELSE IF DownThrough(o, 85) THEN Sell
             ELSE One(below(3) /\ below(2) /\ above(1) /\ above(0), above(3) /\ above(2) /\ below(1) /\ below(0))}
    [] name = "Qstick" ->
         LET q == ti["qstick"]
         IN {One(Below(At(q, 3), At(q, 2)) /\ Below(At(q, 2), 0) /\ Below(0, At(q, 1)) /\ Below(At(q, 1), At(q, 0)),
                 Above(At(q, 3), At(q, 2)) /\ Above(At(q, 2), 0) /\ Above(0, At(q, 1)) /\ Above(At(q, 1), At(q, 0)))}
    [] name = "RangeIndicator" ->
         LET r == ti["ri"]
             quiet == {i \in 1 .. Len(r) : Below(r[i], 20)}
             lastQuiet == CHOOSE i \in quiet : \A j \in quiet : j <= i
         IN {IF UpThrough(r, 20) THEN (IF Below(At(x.close, 1), close) THEN Buy ELSE Sell)
             ELSE IF UpThrough(r, 70) /\ quiet # {} THEN (IF Below(x.close[lastQuiet], close) THEN Sell ELSE Buy)
             ELSE Hold}
    [] name = "UltimateOscillator" ->
         LET u == LastOf(ti["uosc"], 30)  c == LastOf(x.close, 30)
             lowU == MinPresent(u)  before == MaxPresent(SubSeq(u, 1, 29))
         IN {IF lowU = "nan" THEN Hold
             ELSE One(/\ FirstIndex(c, MinPresent(c)) # FirstIndex(u, lowU)
                      /\ Below(lowU, 30) /\ Below(before, At(u, 0)), FALSE)}
    [] name = "VerticalHorizontalFilter" ->
         \* the rule of a trend, or of a range
         IF Rising3(ti["vhf"]) THEN (IF N(x) < 5 THEN {Hold} ELSE DemaSignals(x))
         ELSE IF Falling3(ti["vhf"]) THEN (IF N(x) < 12 THEN {Hold} ELSE MomSignals(x))
         ELSE {Hold}
    [] name = "VolatilityChaikins" -> {One(Rising3(ti["vch"]), Falling3(ti["vch"]))}
    [] name = "VolumeOscillator" ->
         LET v == ti["vosc"] IN {One(Rising3(v) /\ Above(At(v, 2), 0), Falling3(v) /\ Above(At(v, 0), 0))}
    [] name = "WilliamsAccumulationDistribution" ->
         LET c == LastOf(x.close, 30)  w == LastOf(ti["wad"], 30)
         IN {One(MinPresent(c) = At(c, 0) /\ Below(MinPresent(w), At(w, 0)),
                 MaxPresent(c) = At(c, 0) /\ Above(MaxPresent(w), At(w, 0)))}
    [] name = "WilliamsR" ->
         \* the last extreme before the latest row was oversold (overbought), and the indicator passes the middle
         LET w == ti["wr"]
             oversold == {i \in 1 .. (Len(w) - 1) : RLe(w[i], -80)}
             overbought == {i \in 1 .. (Len(w) - 1) : RLe(-20, w[i])}
             lastOf(s) == IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
         IN {One(lastOf(oversold) > lastOf(overbought) /\ UpThrough(w, -50),
                 lastOf(oversold) < lastOf(overbought) /\ DownThrough(w, -50))}
PatternNames == DOMAIN ThreeFallingBuys \cup
  {"AccumulationDistributionLine", "ChaikinMoneyFlow", "ChaikinOscillator", "IchimokuCloud", "MarketFacilitationIndex",
   "MassIndex", "ProjectionOscillator", "Qstick", "RangeIndicator", "UltimateOscillator", "VerticalHorizontalFilter",
   "VolatilityChaikins", "VolumeOscillator", "WilliamsAccumulationDistribution", "WilliamsR"}

(***************************************************************************)
(* Rows of the indicator needed before its rule can fire at all.           *)
(***************************************************************************)
RuleRows(name) ==
  CASE name \in LatestNames -> 1
    [] name \in {"ChaikinMoneyFlow", "OnBalanceVolume", "PriceAndVolumeTrend", "PriceRateOfChange", "VolumeRateOfChange",
                 "VerticalHorizontalFilter", "VolatilityChaikins", "VolumeOscillator"} -> 3
    [] name \in {"ProjectionOscillator", "Qstick"} -> 4
    [] name \in {"UltimateOscillator", "WilliamsAccumulationDistribution"} -> 30
    [] OTHER -> 2
SignalsOf(name, p, x, ti) ==
  IF \E k \in DOMAIN ti : Len(ti[k]) < RuleRows(name) THEN {Hold}
  ELSE IF name \in CrossingNames THEN Crossing(name, p, x, ti)
  ELSE IF name \in LatestNames THEN Latest(name, p, x, ti)
  ELSE Pattern(name, p, x, ti)
=============================================================================
