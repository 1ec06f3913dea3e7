------------------------------ MODULE Indicators ------------------------------
(***************************************************************************)
(* Definitions of the indicators: Ti(name, p, x) is the sequence of        *)
(* columns [name, lo, hi] that the indicator of the given class name, with *)
(* parameters p, has on the market data x (a record of series: close,      *)
(* open, high, low, volume as required by the indicator).                  *)
(*                                                                         *)
(* lo and hi are the exact values before the final rounding.  They differ  *)
(* only where the formula rounds an intermediate result that lies exactly  *)
(* on a rounding boundary, where either neighbour is a correct rounding;   *)
(* where these decide whether there is a value at all, just one of the two *)
(* is missing.                                                             *)
(***************************************************************************)
EXTENDS Series

Col(name, s) == [name |-> name, lo |-> s, hi |-> s]
ColI(name, lo, hi) == [name |-> name, lo |-> lo, hi |-> hi]
Eps == "1/1000000000"
RoundLo(a) == RRound(RSub(a, Eps), 4)
RoundHi(a) == RRound(RAdd(a, Eps), 4)

N(x) == Len(x[CHOOSE c \in DOMAIN x : TRUE])

(* ------------------------------ price transforms ------------------------ *)
Spread(x) == SSub(x.high, x.low)
\* sums over the columns skip missing values; a mean over nothing is missing
Skip0(v) == IF v = "nan" THEN "0" ELSE v
HLCSum(x) == TLCEval([i \in 1 .. N(x) |-> RSum(<<Skip0(x.high[i]), Skip0(x.low[i]), Skip0(x.close[i])>>)])
TypicalPrice(p, x) ==
  <<Col("tp", [i \in 1 .. N(x) |->
      LET s == Present(<<x.high[i], x.low[i], x.close[i]>>) IN IF s = <<>> THEN "nan" ELSE Mean(s)])>>
MedianPrice(p, x) == <<Col("mp", Scale("1/2", SAdd(x.high, x.low)))>>
WeightedClose(p, x) == <<Col("wc", Scale("1/4", SAdd(Scale(2, x.close), SAdd(x.high, x.low))))>>
PrevClose(x) == Shift(x.close, 1)
\* the three distances of Wilder's true range
TrueRanges(x, i) == <<RSub(x.high[i], x.low[i]), RSub(x.high[i], PrevClose(x)[i]), RSub(PrevClose(x)[i], x.low[i])>>
WilliamsAccumulationDistribution(p, x) ==
  LET pc == PrevClose(x) IN
  <<Col("wad", [i \in 1 .. N(x) |->
      LET ch == RSub(x.close[i], pc[i])
      IN IF RPos(ch) THEN RSub(x.close[i], RMin(pc[i], x.low[i]))
         ELSE IF RNegative(ch) THEN RSub(x.close[i], RMax(pc[i], x.high[i]))
         ELSE ch])>>
Performance(p, x) ==
  <<Col("prf", [i \in 1 .. N(x) |-> RDiv(RSub(x.close[i], x.close[1]), x.close[1])]),
    Col("target_" \o p.mode, Const(N(x), p.target))>>
FibonacciRetracement(p, x) ==
  LET hi == MaxPresent(x.close)
      lo == MinPresent(x.close)
      level(name, k) == Col(name, Const(N(x), RSub(hi, RMul(k, RSub(hi, lo)))))
  IN <<level("rl_0.0", 0), level("rl_23.6", "236/1000"), level("rl_38.2", "382/1000"),
       level("rl_50.0", "1/2"), level("rl_61.8", "618/1000"), level("rl_100.0", 1)>>

(* ------------------------------ moving averages ------------------------- *)
WildersSmoothing(p, x) ==
  LET n == p.period
      seed == LET q == Present(SubSeq(x.close, 1, n)) IN IF q = <<>> THEN "nan" ELSE Mean(q)
  IN <<Col("ws", Recur(N(x), n, seed, LAMBDA i, prev :
                       RRound(RAdd(prev, RDiv(RSub(x.close[i], prev), n)), 30)))>>
DoubleEma(a, n) == LET e == Ema(a, n) IN SSub(Scale(2, e), Ema(e, n))
DoubleExponentialMovingAverage(p, x) == <<Col("dema", DoubleEma(x.close, p.period))>>
TripleExponentialMovingAverage(p, x) ==
  LET e1 == Ema(x.close, p.period)
      e2 == Ema(e1, p.period)
      e3 == Ema(e2, p.period)
  IN <<Col("tema", SAdd(Scale(3, SSub(e1, e2)), e3))>>
MovingAverageConvergenceDivergence(p, x) ==
  LET r26 == SRound(Ema(x.close, 26), 4)
      r12 == SRound(Ema(x.close, 12), 4)
      macd == SSub(r12, r26)
  IN <<Col("macd", macd), Col("signal_line", Ema(macd, 9))>>
PriceOscillator(p, x) ==
  LET l == RollMean(x.close, p.long_ma)
      s == RollMean(x.close, p.short_ma)
  IN <<Col("posc", Scale(100, SDiv(SSub(s, l), l)))>>
VolumeOscillator(p, x) ==
  <<Col("vosc", SSub(RollMean(x.volume, p.short_period), RollMean(x.volume, p.long_period)))>>
Envelopes(p, x) ==
  LET m == RollMean(x.close, p.period)
  IN <<Col("upper_band", Scale(RAdd(1, p.shift), m)), Col("lower_band", Scale(RSub(1, p.shift), m))>>
DetrendedPriceOscillator(p, x) ==
  LET k == p.period \div 2 + 1
      s == SSub(x.close, Shift(RollMean(x.close, p.period), 0 - k))
  IN <<Col("dpo", SubSeq(s, 1, N(x) - k))>>
Qstick(p, x) == <<Col("qstick", RollMean(SSub(x.close, x.open), p.period))>>

(* ------------------------------ regression ------------------------------ *)
SlopeSeries(a, w) == Roll(FitSlope, a, w)
EndSeries(a, w) == Roll(FitEnd, Map1(Skip0, a), w)
LinearRegressionSlope(p, x) == <<Col("lrs", SlopeSeries(x.close, p.period))>>
LinearRegressionIndicator(p, x) == <<Col("lri", EndSeries(x.close, p.period))>>
\* the forecast adds the published (rounded) slope and end value
ForecastParts(w, x) == <<SlopeSeries(x.close, w), EndSeries(x.close, w)>>
Forecast(w, x, Rd(_)) ==
  LET q == ForecastParts(w, x)
  IN TLCEval([i \in 1 .. N(x) |-> IF q[1][i] = "nan" \/ q[2][i] = "nan" THEN "nan" ELSE RAdd(Rd(q[1][i]), Rd(q[2][i]))])
TimeSeriesForecast(p, x) == <<ColI("tsf", Forecast(p.period, x, RoundLo), Forecast(p.period, x, RoundHi))>>
ForecastOscillator(p, x) ==
  LET osc(f) == Scale(100, SDiv(SSub(x.close, Shift(f, 1)), x.close))
  IN <<ColI("fosc", osc(Forecast(p.period, x, RoundHi)), osc(Forecast(p.period, x, RoundLo)))>>
\* first greatest / least by strict comparison, as a running maximum that starts with the first value
RunMax(s) == FoldLeft(LAMBDA m, v : IF RLt(m, v) THEN v ELSE m, s[1], s)
RunMin(s) == FoldLeft(LAMBDA m, v : IF RLt(v, m) THEN v ELSE m, s[1], s)
ProjectedBands(w, x) ==
  LET hs == SlopeSeries(Map1(Skip0, x.high), w)
      ls == SlopeSeries(Map1(Skip0, x.low), w)
      proj(a, k, i) == [j \in 1 .. w |-> RAdd(RMul(j - 1, k[i]), a[i - j + 1])]
  IN <<TLCEval([i \in 1 .. N(x) |-> IF i < w THEN "nan" ELSE RunMax(proj(x.high, hs, i))]),
       TLCEval([i \in 1 .. N(x) |-> IF i < w THEN "nan" ELSE RunMin(proj(x.low, ls, i))])>>
ProjectionBands(p, x) ==
  LET b == ProjectedBands(p.period, x) IN <<Col("upper_band", b[1]), Col("lower_band", b[2])>>
Filled(x) == [c \in DOMAIN x |-> FillGaps(x[c])]
ProjectionOscillator(p, x) ==
  LET b  == ProjectedBands(p.period, x)
      up == SRound(b[1], 4)
      lo == SRound(b[2], 4)
      o  == Scale(100, SDiv(SSub(x.close, lo), SSub(up, lo)))
  IN <<Col("posc", o), Col("trigger_line", Ema(o, 3))>>
MovingAverage(p, x) ==
  LET n == p.period
      variable ==
        LET c  == x.close
            up == RollSum(Map1(PosPart, Diff(c, 1)), 9)
            dn == SAbs(RollSum(Map1(NegPart, Diff(c, 1)), 9))
            cmo == SRound(Scale(100, SDiv(SSub(up, dn), SAdd(up, dn))), 4)
            vr == Scale("1/100", SAbs(cmo))
            sm == RStr(2, n + 1)
        IN Recur(N(x), 22, x.close[22], LAMBDA i, prev :
             RRound(RAdd(RMul(RMul(sm, x.close[i]), vr[i]), RMul(RSub(1, RMul(sm, vr[i])), prev)), 30))
  IN CASE p.ma_type = "simple" -> <<Col("ma-simple", RollMean(x.close, n))>>
       [] p.ma_type = "exponential" -> <<Col("ma-exponential", Ema(x.close, n))>>
       [] p.ma_type = "triangular" -> <<Col("ma-triangular", RollMean(RollMean(x.close, n), n))>>
       [] p.ma_type = "time_series" ->
            <<ColI("ma-time_series", Forecast(n, x, RoundLo), Forecast(n, x, RoundHi))>>
       [] p.ma_type = "variable" -> <<Col("ma-variable", variable)>>

(* ------------------------------ oscillators ----------------------------- *)
Momentum(p, x) == <<Col("mom", Scale(100, SDiv(x.close, Shift(x.close, p.period))))>>
PriceRateOfChange(p, x) == <<Col("prc", Scale(100, Pct(x.close, p.period)))>>
VolumeRateOfChange(p, x) == <<Col("vrc", Scale(100, Pct(x.volume, p.period)))>>
ChandeMomentumOscillator(p, x) ==
  LET up == RollSum(Map1(PosPart, Diff(x.close, 1)), p.period)
      dn == SAbs(RollSum(Map1(NegPart, Diff(x.close, 1)), p.period))
  IN <<Col("cmo", Scale(100, SDiv(SSub(up, dn), SAdd(up, dn))))>>
IntradayMomentumIndex(p, x) ==
  LET up == RollSum(Map1(PosPart, SSub(x.close, x.open)), p.period)
      dn == RollSum(Map1(PosPart, SSub(x.open, x.close)), p.period)
  IN <<Col("imi", Scale(100, SDiv(up, SAdd(up, dn))))>>
\* share of u in u + d, in percent; 100 when only d is zero, missing when both are
RelativeStrength(u, d) == RSub(100, RDiv(100, RAdd(RDiv(u, d), 1)))
\* Wilder's smoothing of upward (downward) changes; every smoothed value is rounded to 4 decimals
RelativeStrengthIndex(p, x) ==
  LET n == p.period
      ch == Diff(x.close, 1)
      ups == [i \in 1 .. N(x) |-> IF i = 1 THEN "nan" ELSE IF RPos(ch[i]) THEN RRound(ch[i], 4) ELSE "0"]
      dns == [i \in 1 .. N(x) |-> IF i = 1 THEN "nan" ELSE IF RNegative(ch[i]) THEN RRound(RNeg(ch[i]), 4) ELSE "0"]
      smooth(a, Rd(_)) == Recur(N(x), n + 1, Mean(SubSeq(a, 2, n + 1)), LAMBDA i, prev :
                            Rd(RAdd(prev, RDiv(RSub(a[i], prev), n))))
      ulo == smooth(ups, RoundLo)  uhi == smooth(ups, RoundHi)
      dlo == smooth(dns, RoundLo)  dhi == smooth(dns, RoundHi)
      \* both averages may have been rounded to zero, or not
      open(i) == REq(ulo[i], 0) /\ REq(dlo[i], 0) /\ (RPos(uhi[i]) \/ RPos(dhi[i]))
  IN <<ColI("rsi", [i \in 1 .. N(x) |-> IF open(i) THEN "nan" ELSE RelativeStrength(ulo[i], dhi[i])],
                   [i \in 1 .. N(x) |-> IF open(i) THEN "0" ELSE RelativeStrength(uhi[i], dlo[i])])>>
RelativeMomentumIndex(p, x) ==
  LET n == p.period  m == p.momentum_period
      ch == Diff(x.close, m)
      up == [i \in 1 .. N(x) |-> PosPart(ch[i])]
      dn == [i \in 1 .. N(x) |-> PosPart(RNeg(ch[i]))]
      seed(a) == LET q == Present(SubSeq(a, m + 1, n + m)) IN IF q = <<>> THEN "nan" ELSE Mean(q)
      smooth(a) == Recur(N(x), n + m, seed(a), LAMBDA i, prev : RRound(RAdd(prev, RDiv(RSub(a[i], prev), n)), 30))
      rs == SDiv(smooth(up), smooth(dn))
  IN <<Col("rmi", Map1(LAMBDA r : RDiv(RMul(100, r), RAdd(1, r)), rs))>>
RelativeVolatilityIndex(p, x) ==
  LET n == p.period
      half(a) ==
        LET ch == Diff(a, 1)
            sd == RollStd(a, 10)
            u == [i \in 1 .. N(x) |-> IF RPos(ch[i]) THEN sd[i] ELSE "0"]
            d == [i \in 1 .. N(x) |-> IF RNegative(ch[i]) THEN sd[i] ELSE "0"]
            \* the first average leaves missing values out
            smooth(s) == Recur(N(x), n + 9, Mean(SelectSeq(SubSeq(s, 10, n + 9), LAMBDA v : ~RIsNan(v))), LAMBDA i, prev :
                           RRound(RAdd(prev, RDiv(RSub(s[i], prev), n)), 20))
            su == smooth(u)  ds == smooth(d)
        IN Scale(100, SDiv(su, SAdd(su, ds)))
  IN <<Col("rvi", Scale("1/2", SAdd(half(x.high), half(x.low))))>>
\* e to the minus 1/2 and to the minus 1
EHalf == "60653065971263342360/100000000000000000000"
EOne  == "36787944117144232160/100000000000000000000"
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN "1" ELSE RMul(a, RPow(a, k - 1))
\* weights exp(-|distance from the middle of the window|)
ExpWeights(w) == [j \in 1 .. w |->
  LET twice == IF 2 * j >= w + 1 THEN 2 * j - (w + 1) ELSE (w + 1) - 2 * j
  IN IF twice % 2 = 0 THEN RPow(EOne, twice \div 2) ELSE RMul(EHalf, RPow(EOne, twice \div 2))]
WeightedMean(s, wts) == RDiv(RSum([j \in 1 .. Len(s) |-> RMul(s[j], wts[j])]), RSum(wts))
StochasticOscillator(p, x) ==
  LET lo == RollMin(x.low, p.k_periods)
      hi == RollMax(x.high, p.k_periods)
      num == RollSum(SSub(x.close, lo), p.k_slowing_periods)
      den == RollSum(SSub(hi, lo), p.k_slowing_periods)
      k == Scale(100, SDiv(num, den))
      kr == SRound(k, 4)
      wts == ExpWeights(p.d_periods)
      d == IF p.d_method = "simple" THEN RollMean(kr, p.d_periods)
           ELSE Roll(LAMBDA s : WeightedMean(s, wts), kr, p.d_periods)
  IN <<Col("%K", k), Col("%D", d)>>
StochasticMomentumIndex(p, x) ==
  LET hh == RollMax(x.high, p.period)
      ll == RollMin(x.low, p.period)
      dbl(a) == Ema(Ema(a, p.smoothing_period), p.double_smoothing_period)
      dist == dbl(SSub(x.close, Scale("1/2", SAdd(hh, ll))))
      range == dbl(SSub(hh, ll))
  IN <<Col("smi", Scale(100, SDiv(dist, Scale("1/2", range))))>>
WilliamsR(p, x) ==
  LET hh == RollMax(x.high, p.period)
      ll == RollMin(x.low, p.period)
  IN <<Col("wr", Scale("-100", SDiv(SSub(hh, x.close), SSub(hh, ll))))>>
UltimateOscillator(p, x) ==
  LET pc == PrevClose(x)
      th == Map2(RMax, x.high, pc)
      tl == Map2(RMin, x.low, pc)
      r == SSub(th, tl)
      b == SSub(x.close, tl)
      part(w) == SDiv(RollSum(b, w), RollSum(r, w))
  IN <<Col("uosc", Scale("100/7", SAdd(Scale(4, part(7)), SAdd(Scale(2, part(14)), part(28)))))>>
CommodityChannelIndex(p, x) ==
  LET tp == Scale("1/3", HLCSum(x))
      sma == RollMean(tp, p.period)
      dev == [i \in 1 .. N(x) |-> IF sma[i] = "nan" THEN "nan"
               ELSE RSum([j \in 1 .. p.period |-> RAbs(RSub(sma[i], tp[i - j + 1]))])]
  IN <<Col("cci", SDiv(SSub(tp, sma), Scale(RDiv("15/1000", p.period), dev)))>>
VerticalHorizontalFilter(p, x) ==
  LET hc == RollMax(x.close, p.period)
      lc == RollMin(x.close, p.period)
      ch == RollSum(SAbs(Diff(x.close, 1)), p.period)
  IN <<Col("vhf", SDiv(SAbs(SSub(hc, lc)), ch))>>
RangeIndicator(p, x) ==
  LET ch == Diff(x.close, 1)
      see == [i \in 1 .. N(x) |->
               IF i = 1 THEN "nan"
               ELSE LET tr == RMaxSeq(TrueRanges(x, i))
                    IN IF RPos(ch[i]) THEN RDiv(tr, ch[i]) ELSE tr]
      mn == RollMin(see, p.range_period)
      mx == RollMax(see, p.range_period)
      st == [i \in 1 .. N(x) |->
               LET range == RSub(mx[i], mn[i])
               IN IF RPos(range) THEN RDiv(RMul(100, RSub(see[i], mn[i])), range)
                  ELSE RMul(100, RSub(see[i], mn[i]))]
  IN <<Col("ri", Ema(st, p.smoothing_period))>>
SwingIndex(p, x) ==
  LET pc == PrevClose(x)
      po == Shift(x.open, 1)
      s == [i \in 1 .. N(x) |->
        LET a == RAbs(RSub(x.high[i], pc[i]))
            b == RAbs(RSub(x.low[i], pc[i]))
            c == RSub(x.high[i], x.low[i])
            m == RAdd(RSub(x.close[i], pc[i]),
                      RAdd(RMul("1/2", RSub(x.close[i], x.open[i])), RMul("1/4", RSub(pc[i], po[i]))))
            kk == MaxPresent(<<a, b>>)
            r == RAdd(MaxPresent(<<a, b, c>>), RMul("1/4", RAbs(RSub(pc[i], po[i]))))
            v == RMul(RMul(50, RDiv(m, r)), RDiv(kk, 3))
        IN IF RGt(v, 100) THEN "100" ELSE IF RLt(v, "-100") THEN "-100" ELSE v]
  IN <<Col("swi", s)>>

(* ------------------------------ volume ---------------------------------- *)
MoneyFlow(x) == SDiv(SMul(x.volume, SSub(SSub(x.close, x.low), SSub(x.high, x.close))), Spread(x))
\* published as whole numbers; at a whole number either direction of the last float error is admitted
AdlSeries(x, e) == Map1(LAMBDA v : RTrunc(RAdd(v, e)), CumSum(MoneyFlow(x)))
AdlLo(x) == AdlSeries(x, "-1/10000000")
AdlHi(x) == AdlSeries(x, "1/10000000")
AccumulationDistributionLine(p, x) == <<ColI("adl", AdlLo(x), AdlHi(x))>>
ChaikinOscillator(p, x) ==
  LET lo == AdlLo(x)  hi == AdlHi(x)
  IN <<ColI("co", SSub(Ema(lo, 3), Ema(hi, 10)), SSub(Ema(hi, 3), Ema(lo, 10)))>>
ChaikinMoneyFlow(p, x) ==
  <<Col("cmf", SDiv(RollSum(MoneyFlow(x), p.period), RollSum(x.volume, p.period)))>>
EaseOfMovement(p, x) ==
  LET mid == Scale("1/2", SAdd(x.high, x.low))
      box == SDiv(x.volume, Scale(10000, Spread(x)))
      emv == SDiv(Diff(mid, 1), box)
  IN <<Col("emv", emv), Col("emv_ma", RollMean(emv, p.period))>>
KlingerOscillator(p, x) ==
  LET d == Diff(HLCSum(x), 1)
      t == [i \in 1 .. N(x) |-> IF i = 1 THEN "nan" ELSE IF RPos(d[i]) THEN "1" ELSE "-1"]
      dm == Spread(x)
      cm == Recur(N(x), 1, "0", LAMBDA i, prev :
              IF REq(t[i], t[i - 1]) THEN RAdd(prev, dm[i]) ELSE RAdd(dm[i - 1], dm[i]))
      vf == SMul(x.volume, SMul(SAbs(Map1(LAMBDA v : RSub(v, 1), Scale(2, SDiv(dm, cm)))), Scale(100, t)))
  IN <<Col("ko", SSub(Ema(vf, 34), Ema(vf, 55)))>>
MarketFacilitationIndex(p, x) == <<Col("mfi", SDiv(Spread(x), x.volume))>>
VolumeIndex(x, Moves(_, _)) ==
  Recur(N(x), 1, "1000", LAMBDA i, prev :
    IF Moves(x.volume[i], x.volume[i - 1])
    THEN RAdd(prev, RMul(RSub(x.close[i], x.close[i - 1]), RDiv(prev, x.close[i - 1])))
    ELSE prev)
NegativeVolumeIndex(p, x) == <<Col("nvi", VolumeIndex(x, RLt))>>
PositiveVolumeIndex(p, x) == <<Col("pvi", VolumeIndex(x, RGt))>>
OnBalanceVolume(p, x) ==
  LET ch == Diff(x.close, 1)
  IN <<Col("obv", CumSum([i \in 1 .. N(x) |-> IF RPos(ch[i]) THEN x.volume[i]
                                            ELSE IF RNegative(ch[i]) THEN RNeg(x.volume[i]) ELSE "0"]))>>
PriceAndVolumeTrend(p, x) ==
  <<Col("pvt", Recur(N(x), 1, "0", LAMBDA i, prev :
      RAdd(prev, RMul(RSub(x.close[i], x.close[i - 1]), RDiv(x.volume[i], x.close[i - 1])))))>>

(* ------------------------------ volatility, channels -------------------- *)
AverageTrueRange(p, x) ==
  LET tr == [i \in 1 .. N(x) |-> MaxPresent(TrueRanges(x, i))]
      seed == LET q == Present(SubSeq(tr, 1, 14)) IN IF q = <<>> THEN "nan" ELSE Mean(q)
      tail == Ewm(<<seed>> \o SubSeq(tr, 15, N(x)), "1/14", 1)
  IN <<Col("atr", [i \in 1 .. N(x) |-> IF i < 14 THEN "nan" ELSE tail[i - 13]])>>
BollingerBands(p, x) ==
  LET m == RollMean(x.close, p.period)
      lo == Map1(RoundLo, m)  hi == Map1(RoundHi, m)
      sd == Scale(p.std_number, RollStd(x.close, p.period))
  IN <<Col("middle_band", m), ColI("upper_band", SAdd(lo, sd), SAdd(hi, sd)), ColI("lower_band", SSub(lo, sd), SSub(hi, sd))>>
StandardDeviation(p, x) == <<Col("sd", RollStd(x.close, p.period))>>
VolatilityChaikins(p, x) == <<Col("vch", Scale(100, Pct(Ema(Spread(x), p.ema_period), p.change_period)))>>
MassIndex(p, x) ==
  LET e == Ema(Spread(x), 9)
  IN <<Col("mi", RollSum(SDiv(e, Ema(e, 9)), 25))>>
PriceChannel(p, x) ==
  <<Col("highest_high", Shift(RollMax(x.high, p.period), 1)), Col("lowest_low", Shift(RollMin(x.low, p.period), 1))>>
IchimokuCloud(p, x) ==
  LET mid(w) == Scale("1/2", SAdd(RollPart(RMaxSeq, x.high, w, 1), RollPart(RMinSeq, x.low, w, 1)))
      tk == mid(9)
      kj == mid(26)
  IN <<Col("tenkan_sen", tk), Col("kijun_sen", kj), Col("senkou_a", Shift(Scale("1/2", SAdd(tk, kj)), 26)),
       Col("senkou_b", Shift(mid(52), 26))>>

(* ------------------------------ path dependent -------------------------- *)
\* a state of the Parabolic SAR: acceleration, extreme point, stop, position, first day of the position
SarInit(x) ==
  IF RGt(x.high[2], x.high[1])
  THEN [af |-> "2/100", ep |-> x.high[1], sar |-> x.low[1], long |-> TRUE, from |-> 1]
  ELSE [af |-> "2/100", ep |-> x.low[1], sar |-> x.high[1], long |-> FALSE, from |-> 1]
PyMin(a, b) == IF RLt(b, a) THEN b ELSE a
PyMax(a, b) == IF RLt(a, b) THEN b ELSE a
SarStep(x, i, s) ==
  LET ep == IF s.long THEN RMaxSeq(SubSeq(x.high, s.from, i)) ELSE RMinSeq(SubSeq(x.low, s.from, i))
      better == IF s.long THEN RGt(ep, s.ep) ELSE RLt(ep, s.ep)
      af == IF better THEN PyMin("1/5", RAdd(s.af, "2/100")) ELSE s.af
      raw == RAdd(s.sar, RMul(s.af, RSub(s.ep, s.sar)))
      first == IF i - 2 < 1 THEN 1 ELSE i - 2
      sar == IF s.long THEN PyMin(raw, RMinSeq(SubSeq(x.low, first, i - 1)))
             ELSE PyMax(raw, RMaxSeq(SubSeq(x.high, first, i - 1)))
      hit == IF s.long THEN RLt(x.low[i], sar) ELSE RGt(x.high[i], sar)
  IN IF ~hit THEN [af |-> af, ep |-> ep, sar |-> sar, long |-> s.long, from |-> s.from]
     ELSE IF s.long
     THEN [af |-> "2/100", ep |-> x.low[i], sar |-> RMaxSeq(SubSeq(x.high, s.from, i - 1)), long |-> FALSE, from |-> i]
     ELSE [af |-> "2/100", ep |-> x.high[i], sar |-> RMinSeq(SubSeq(x.low, s.from, i - 1)), long |-> TRUE, from |-> i]
SarStates(x) ==
  FoldLeft(LAMBDA ss, i : TLCEval(Append(ss, IF i = 1 THEN SarInit(x) ELSE SarStep(x, i, ss[i - 1]))),
           <<>>, [i \in 1 .. N(x) |-> i])
ParabolicSAR(p, x) == LET ss == SarStates(x) IN <<Col("sar", [i \in 1 .. N(x) |-> ss[i].sar])>>
DirectionalMovementIndex(p, x) ==
  LET n == N(x)
      up == Diff(x.high, 1)
      dn == SSub(Shift(x.low, 1), x.low)
      tr == [i \in 1 .. n |-> IF i = 1 THEN "nan" ELSE RMaxSeq(TrueRanges(x, i))]
      pd == [i \in 1 .. n |-> IF i = 1 THEN "nan" ELSE IF RGt(up[i], dn[i]) /\ RPos(up[i]) THEN up[i] ELSE "0"]
      md == [i \in 1 .. n |-> IF i = 1 THEN "nan" ELSE IF RLt(up[i], dn[i]) /\ RPos(dn[i]) THEN dn[i] ELSE "0"]
      \* the sums over the first 14 days skip the missing first one
      sm(a) == Recur(n, 14, RSum(Present(SubSeq(a, 1, 14))), LAMBDA i, prev :
                 RRound(RAdd(RSub(prev, RDiv(prev, 14)), a[i]), 30))
      from15(s) == [i \in 1 .. n |-> IF i < 15 THEN "nan" ELSE s[i]]
      t14 == sm(tr)
      pdi == from15(Scale(100, SDiv(sm(pd), t14)))
      mdi == from15(Scale(100, SDiv(sm(md), t14)))
      dx == Scale(100, SDiv(SAbs(SSub(pdi, mdi)), SAbs(SAdd(pdi, mdi))))
      adx == Recur(n, 28, RDiv(RSum(Present(SubSeq(dx, 1, 28))), 14), LAMBDA i, prev :
               RRound(RDiv(RAdd(RMul(13, prev), dx[i]), 14), 30))
      adxr == [i \in 1 .. n |-> IF i < 41 THEN "nan" ELSE RDiv(RAdd(adx[i], adx[i - 13]), 2)]
  IN <<Col("+di", pdi), Col("-di", mdi), Col("dx", dx), Col("adx", adx), Col("adxr", adxr)>>

Ti(name, p, x) ==
  CASE name = "AccumulationDistributionLine" -> AccumulationDistributionLine(p, x)
    [] name = "AverageTrueRange" -> AverageTrueRange(p, x)
    [] name = "BollingerBands" -> BollingerBands(p, x)
    [] name = "ChaikinMoneyFlow" -> ChaikinMoneyFlow(p, x)
    [] name = "ChaikinOscillator" -> ChaikinOscillator(p, x)
    [] name = "ChandeMomentumOscillator" -> ChandeMomentumOscillator(p, x)
    [] name = "CommodityChannelIndex" -> CommodityChannelIndex(p, x)
    [] name = "DetrendedPriceOscillator" -> DetrendedPriceOscillator(p, x)
    [] name = "DirectionalMovementIndex" -> DirectionalMovementIndex(p, x)
    [] name = "DoubleExponentialMovingAverage" -> DoubleExponentialMovingAverage(p, x)
    [] name = "EaseOfMovement" -> EaseOfMovement(p, x)
    [] name = "Envelopes" -> Envelopes(p, x)
    [] name = "FibonacciRetracement" -> FibonacciRetracement(p, x)
    [] name = "ForecastOscillator" -> ForecastOscillator(p, x)
    [] name = "IchimokuCloud" -> IchimokuCloud(p, x)
    [] name = "IntradayMomentumIndex" -> IntradayMomentumIndex(p, x)
    [] name = "KlingerOscillator" -> KlingerOscillator(p, x)
    [] name = "LinearRegressionIndicator" -> LinearRegressionIndicator(p, x)
    [] name = "LinearRegressionSlope" -> LinearRegressionSlope(p, x)
    [] name = "MarketFacilitationIndex" -> MarketFacilitationIndex(p, x)
    [] name = "MassIndex" -> MassIndex(p, x)
    [] name = "MedianPrice" -> MedianPrice(p, x)
    [] name = "Momentum" -> Momentum(p, x)
    [] name = "MovingAverage" -> MovingAverage(p, x)
    [] name = "MovingAverageConvergenceDivergence" -> MovingAverageConvergenceDivergence(p, x)
    [] name = "NegativeVolumeIndex" -> NegativeVolumeIndex(p, x)
    [] name = "OnBalanceVolume" -> OnBalanceVolume(p, x)
    [] name = "ParabolicSAR" -> ParabolicSAR(p, x)
    [] name = "Performance" -> Performance(p, x)
    [] name = "PositiveVolumeIndex" -> PositiveVolumeIndex(p, x)
    [] name = "PriceAndVolumeTrend" -> PriceAndVolumeTrend(p, x)
    [] name = "PriceChannel" -> PriceChannel(p, x)
    [] name = "PriceOscillator" -> PriceOscillator(p, x)
    [] name = "PriceRateOfChange" -> PriceRateOfChange(p, x)
    [] name = "ProjectionBands" -> ProjectionBands(p, x)
    [] name = "ProjectionOscillator" -> ProjectionOscillator(p, x)
    [] name = "Qstick" -> Qstick(p, x)
    [] name = "RangeIndicator" -> RangeIndicator(p, x)
    [] name = "RelativeMomentumIndex" -> RelativeMomentumIndex(p, x)
    [] name = "RelativeStrengthIndex" -> RelativeStrengthIndex(p, x)
    [] name = "RelativeVolatilityIndex" -> RelativeVolatilityIndex(p, x)
    [] name = "StandardDeviation" -> StandardDeviation(p, x)
    [] name = "StochasticMomentumIndex" -> StochasticMomentumIndex(p, x)
    [] name = "StochasticOscillator" -> StochasticOscillator(p, x)
    [] name = "SwingIndex" -> SwingIndex(p, x)
    [] name = "TimeSeriesForecast" -> TimeSeriesForecast(p, x)
    [] name = "TripleExponentialMovingAverage" -> TripleExponentialMovingAverage(p, x)
    [] name = "TypicalPrice" -> TypicalPrice(p, x)
    [] name = "UltimateOscillator" -> UltimateOscillator(p, x)
    [] name = "VerticalHorizontalFilter" -> VerticalHorizontalFilter(p, x)
    [] name = "VolatilityChaikins" -> VolatilityChaikins(p, x)
    [] name = "VolumeOscillator" -> VolumeOscillator(p, x)
    [] name = "VolumeRateOfChange" -> VolumeRateOfChange(p, x)
    [] name = "WeightedClose" -> WeightedClose(p, x)
    [] name = "WildersSmoothing" -> WildersSmoothing(p, x)
    [] name = "WilliamsAccumulationDistribution" -> WilliamsAccumulationDistribution(p, x)
    [] name = "WilliamsR" -> WilliamsR(p, x)
=============================================================================
