---------------------------- MODULE IndicatorProps ----------------------------
(***************************************************************************)
(* Properties of the rows of indicator data, for valid market data         *)
(* (positive prices and volumes, low <= open, close <= high).              *)
(***************************************************************************)
EXTENDS Indicators, Catalog

ValidBar(x, i) ==
  /\ \A c \in DOMAIN x : RIsFin(x[c][i]) /\ RPos(x[c][i])
  /\ {"high", "low"} \subseteq DOMAIN x =>
       /\ RLe(x.low[i], x.high[i])
       /\ \A c \in DOMAIN x \cap {"open", "close"} : RLe(x.low[i], x[c][i]) /\ RLe(x[c][i], x.high[i])
  /\ ("high" \in DOMAIN x /\ "low" \notin DOMAIN x) => TRUE

ValueRange(name) ==
  CASE name \in {"RelativeStrengthIndex", "RelativeMomentumIndex", "IntradayMomentumIndex", "RelativeVolatilityIndex",
                 "StochasticOscillator", "UltimateOscillator", "DirectionalMovementIndex"} -> <<"0", "100">>
    [] name = "WilliamsR" -> <<"-100", "0">>
    [] name \in {"ChandeMomentumOscillator", "StochasticMomentumIndex", "SwingIndex"} -> <<"-100", "100">>
    [] name = "ChaikinMoneyFlow" -> <<"-1", "1">>
    [] name = "VerticalHorizontalFilter" -> <<"0", "1">>
    [] name \in {"StandardDeviation", "AverageTrueRange"} -> <<"0", "inf">>
    [] OTHER -> <<"-inf", "inf">>

Within(v, lo, hi) == v = "nan" \/ (RLe(lo, v) /\ RLe(v, hi))
LeOrMissing(a, b) == a = "nan" \/ b = "nan" \/ RLe(a, b)
\* indexes of the columns from the lowest band to the highest
BandOrder(name) ==
  CASE name = "BollingerBands" -> <<3, 1, 2>>
    [] name \in {"Envelopes", "ProjectionBands", "PriceChannel"} -> <<2, 1>>
    [] name = "FibonacciRetracement" -> <<6, 5, 4, 3, 2, 1>>
    [] OTHER -> <<>>

\* row: the values of day i, in column order; slack is added to exact comparisons with prices
RowInRange(name, row) == \A k \in 1 .. Len(row) : Within(row[k], ValueRange(name)[1], ValueRange(name)[2])
RowOrdered(name, row) ==
  LET o == BandOrder(name) IN \A k \in 1 .. Len(o) - 1 : LeOrMissing(row[o[k]], row[o[k + 1]])
\* slack: half a unit of the last published decimal
RowNearPrice(name, x, i, row, slack) ==
  CASE name \in {"TypicalPrice", "MedianPrice", "WeightedClose"} ->
         Within(row[1], RSub(x.low[i], slack), RAdd(x.high[i], slack))
    [] name = "ParabolicSAR" ->
         \* the first day's stop is one of its own prices
         Within(row[1], RSub(RMinSeq(SubSeq(x.low, 1, i)), slack), RAdd(RMaxSeq(SubSeq(x.high, 1, i)), slack))
    [] OTHER -> TRUE
=============================================================================
