------------------------------- MODULE MCSignals -------------------------------
(***************************************************************************)
(* Exhaustive model of the signal rules around their critical values: after*)
(* some quiet first rows, every sequence of rows built from values at, and *)
(* one unit in the last published decimal around, the levels of the rule,  *)
(* and missing values.  Every state is printed with its allowed signals,   *)
(* for replay into the implementation.                                     *)
(*                                                                         *)
(* A case is [name, p, quiet : number of first rows, row, close : values   *)
(* of the first rows, steps : Seq(set of [ti : row, close])].              *)
(***************************************************************************)
EXTENDS Signals, Catalog, Json, IOUtils
CONSTANT Family                      \* "cross", "latest" or "pattern"

Tick == "1/10000"
Near(v) == {RSub(v, Tick), RAdd(v, 0), RAdd(v, Tick)}
Nan == "nan"
Def(name) == [q \in {Catalog[name].params[i].name : i \in 1 .. Len(Catalog[name].params)} |->
                LET d == CHOOSE i \in 1 .. Len(Catalog[name].params) : Catalog[name].params[i].name = q
                IN IF Catalog[name].params[d].kind \in {"int", "oneof"} THEN RNum(Catalog[name].params[d].default)
                   ELSE Catalog[name].params[d].default] @@ [none |-> 0]

S(ti, close) == [ti |-> ti, close |-> close]
Rep(k, set) == TLCEval([i \in 1 .. k |-> TLCEval(set)])
Case(name, p, quiet, row, close, steps) ==
  [name |-> name, p |-> p, quiet |-> quiet, row |-> row, close |-> close, steps |-> steps]
Simple(name, row, steps) == Case(name, Def(name), 1, row, "10", steps)
\* one published column c taking the values v over k rows
OneCol(name, c, v, k) == Simple(name, (c :> Nan), Rep(k, {S((c :> w), "10") : w \in v}))
\* a published line against the close, over k rows
Line(name, p, c, k) ==
  Case(name, p, 1, (c :> "10"), "10",
       Rep(k, {S((c :> w), "10") : w \in Near(10) \cup {Nan}} \cup {S((c :> "10"), w) : w \in {"39/4", "41/4"}}))

\* rows of the indicators with several columns
Fib == ("rl_0.0" :> "110") @@ ("rl_23.6" :> "345/4") @@ ("rl_38.2" :> "72") @@ ("rl_50.0" :> "60")
       @@ ("rl_61.8" :> "48") @@ ("rl_100.0" :> "10")
Dmi(a, b, x) == ("+di" :> a) @@ ("-di" :> b) @@ [dx |-> "30", adx |-> "30", adxr |-> x]
Stoch(a, b) == ("%K" :> a) @@ ("%D" :> b)
Band(u, l) == [upper_band |-> u, lower_band |-> l]
Boll(u, m, l) == [middle_band |-> m, upper_band |-> u, lower_band |-> l]
Chan(u, l) == [highest_high |-> u, lowest_low |-> l]
Proj(o, g) == [posc |-> o, trigger_line |-> g]
Perf(p, v) == ("prf" :> v) @@ (("target_" \o p.mode) :> p.target)
Around8to12 == {"31/4", "8", "33/4", "10", "47/4", "12", "49/4"}

(* ---------------------------------- crossings --------------------------- *)
CrossCases ==
  {OneCol(n, ZeroUpBuys[n], Near(0) \cup {Nan}, 3) : n \in DOMAIN ZeroUpBuys \ {"EaseOfMovement"}}
  \cup {OneCol(n, ZeroUpSells[n], Near(0) \cup {Nan}, 3) : n \in DOMAIN ZeroUpSells}
  \cup {Simple("EaseOfMovement", [emv |-> "0", emv_ma |-> "0"],
               Rep(2, {S([emv |-> v, emv_ma |-> w], "10") : v \in {"-1", "1"}, w \in Near(0) \cup {Nan}}))}
  \cup {OneCol(n, Bands[n].c, Near(Bands[n].low) \cup Near(Bands[n].high) \cup {Nan, RStr(Bands[n].low + Bands[n].high, 2)}, 2)
          : n \in DOMAIN Bands}
  \cup {Line(n, Def(n), PriceUpSells[n], 3) : n \in DOMAIN PriceUpSells}
  \cup {Line("ParabolicSAR", Def("ParabolicSAR"), "sar", 3)}
  \cup {Simple("FibonacciRetracement", Fib, Rep(2, {S(Fib, c) : c \in
            UNION {{RSub(v, "1/4"), RAdd(v, 0), RAdd(v, "1/4")} : v \in {"60", "72", "345/4", "48"}} \cup {"10", "39/4", "110", "441/4"}}))}
  \cup {Simple("DirectionalMovementIndex", Dmi("10", "10", "20"),
               Rep(2, {S(Dmi(a, "10", x), "10") : a \in Near(10) \cup {Nan}, x \in Near(20) \cup {Nan}}))}
  \cup {Simple("MovingAverageConvergenceDivergence", [macd |-> Nan, signal_line |-> Nan],
               Rep(2, {S([macd |-> a, signal_line |-> b], "10") :
                         a \in Near(0) \cup {Nan}, b \in Near(0) \cup {"-1/5000", "1/5000", Nan}}))}
  \cup {Simple("StochasticOscillator", Stoch("50", "50"),
               Rep(2, {S(Stoch(a, b), "10") : a \in Near(80) \cup Near(20) \cup {"90", "5", Nan},
                                              b \in Near(80) \cup Near(20) \cup {"90", "5", Nan}}))}
  \cup {Line("MedianPrice", [period |-> 1], "mp", 3)}
  \cup {Case("MedianPrice", [period |-> 3], 1, [mp |-> "10"], "10", Rep(4, {S([mp |-> m], c) : m \in {"10", "21/2"}, c \in {"9", "10", "11"}}))}
  \cup {Case("Momentum", Def("Momentum"), q, [mom |-> "100"], "10",
             Rep(3, {S([mom |-> m], "10") : m \in Near(100) \cup {"90", "110"}})) : q \in {6, 7, 8, 12}}
  \cup {Case("PositiveVolumeIndex", Def("PositiveVolumeIndex"), q, [pvi |-> "1000"], "10",
             Rep(2, {S([pvi |-> m], "10") : m \in Near(1000) \cup {"900", "1100"}})) : q \in {253, 254}}

(* ------------------------------ latest row ------------------------------ *)
LatestCases ==
  {Simple("Envelopes", Band("12", "8"), <<{S(Band("12", "8"), c) : c \in Around8to12}
       \cup {S(b, c) : b \in {Band(Nan, Nan), Band("10", "10"), Band("100001/10000", "99999/10000")}, c \in {"8", "10", "12"}}>>)}
  \cup {Simple("BollingerBands", Boll("12", "10", "8"), <<{S(Boll("12", "10", "8"), c) : c \in Around8to12}
       \cup {S(b, "10") : b \in {Boll(Nan, Nan, Nan), Boll("10", "10", "10"), Boll("100001/10000", "10", "99999/10000"),
                                  Boll("11", "11", "11"), Boll("9", "9", "9")}}>>)}
  \cup {Simple("PriceChannel", Chan("12", "8"), <<{S(Chan("12", "8"), c) : c \in Around8to12}
       \cup {S(b, "10") : b \in {Chan(Nan, Nan), Chan("10", "10"), Chan("11", "11"), Chan("9", "9")}}>>)}
  \cup {OneCol("CommodityChannelIndex", "cci", Near(-100) \cup Near(100) \cup {"0", Nan}, 2)}
  \cup {Line(n, Def(n), c, 1) : n \in {"DoubleExponentialMovingAverage"}, c \in {"dema"}}
  \cup {Line("TripleExponentialMovingAverage", Def("TripleExponentialMovingAverage"), "tema", 1)}
  \cup {Line("MovingAverage", [period |-> 3, ma_type |-> m], "ma-" \o m, 1)
          : m \in {"simple", "exponential", "time_series", "triangular", "variable"}}
  \cup {Case("Performance", p, 1, Perf(p, "0"), "10", <<{S(Perf(p, v), "10") : v \in Near(p.target) \cup {"0", Nan, "1", "-1/2"}}>>)
          : p \in {[mode |-> "LONG", target |-> "1/20"], [mode |-> "SHORT", target |-> "-1/20"], [mode |-> "LONG", target |-> "0"],
                   [mode |-> "SHORT", target |-> "0"], [mode |-> "LONG", target |-> "1/4"]}}
  \cup {Simple("ProjectionBands", Band("30", "10"),
               <<{S(Band("30", "10"), c) : c \in {"107/4", "27", "109/4", "51/4", "13", "53/4", "20", "9", "31"}}
                 \cup {S(b, c) : b \in {Band(Nan, Nan), Band("10", "10"), Band("51/5", "97/10")}, c \in {"9", "10", "11"}}>>)}
  \cup {Case("StandardDeviation", [period |-> 3], 1, [sd |-> Nan], "10",
             Rep(3, {S([sd |-> v], c) : v \in Near(2) \cup {Nan}, c \in {"9", "10", "11"}}))}
  \cup {Case("TypicalPrice", [period |-> 3], 1, [tp |-> "10"], "10", Rep(2, {S([tp |-> v], c) : v \in Near(10), c \in {"9", "10", "11"}}))}
  \cup {Case("AverageTrueRange", Def("AverageTrueRange"), q, [atr |-> "1"], "25",
             Rep(3, {S([atr |-> v], c) : v \in Near("1/4") \cup {Nan}, c \in {"24", "25", "26"}})) : q \in {7}}
  \cup {Case("AverageTrueRange", Def("AverageTrueRange"), 4, [atr |-> "1"], c0,
             Rep(7, {S([atr |-> "1"], c) : c \in {"24", "26"}})) : c0 \in {"25", "20", "30"}}
  \cup {Case("NegativeVolumeIndex", Def("NegativeVolumeIndex"), q, [nvi |-> "1000"], "10",
             Rep(2, {S([nvi |-> m], "10") : m \in Near(1000) \cup {"900", "1100"}})) : q \in {252, 253, 254}}

(* -------------------------------- patterns ------------------------------ *)
Ich(t, k, a, b) == [tenkan_sen |-> t, kijun_sen |-> k, senkou_a |-> a, senkou_b |-> b]
PatternCases ==
  {OneCol(n, ThreeFallingBuys[n], {"1", "2", "3", IF n = "OnBalanceVolume" THEN "4" ELSE Nan}, 4) : n \in DOMAIN ThreeFallingBuys}
  \cup {Case("AccumulationDistributionLine", Def("AccumulationDistributionLine"), 1, [adl |-> "0"], "10",
             Rep(2, {S([adl |-> v], c) : v \in {"-1", "0", "1"}, c \in {"9", "10", "11"}}))}
  \cup {Case("ChaikinMoneyFlow", Def("ChaikinMoneyFlow"), 1, [cmf |-> "0"], "10",
             Rep(3, {S([cmf |-> v], c) : v \in Near(0) \cup {Nan}, c \in {"9", "10", "11"}}))}
  \cup {Case("ChaikinOscillator", Def("ChaikinOscillator"), q, [co |-> "0"], "10",
             Rep(2, {S([co |-> v], c) : v \in Near(0) \cup {"-1/5000", "1/5000", Nan}, c \in {"9", "10", "11"}})) : q \in {87, 88, 89}}
  \cup {Case("IchimokuCloud", Def("IchimokuCloud"), 2, Ich("10", "10", "10", "10"), "10",
             <<{S(Ich(t, "10", "10", "11"), "10") : t \in Near(10)},
               {S(Ich(tk[1], tk[2], ab[1], ab[2]), c) :
                  tk \in {<<"9", "19/2">>, <<"19/2", "9">>, <<"12", "25/2">>, <<"25/2", "12">>, <<"11", "23/2">>, <<"23/2", "11">>,
                          <<"10", "9">>, <<"9", "10">>, <<"12", "12">>, <<"21/2", "12">>, <<"12", "21/2">>},
                  ab \in {<<"10", "11">>, <<"11", "10">>, <<"11", "11">>, <<Nan, "11">>, <<"11", Nan>>, <<Nan, Nan>>},
                  c \in {"9", "10", "21/2", "11", "12"}}>>)}
  \cup {OneCol("MarketFacilitationIndex", "mfi", {"1", "10000000001/10000000000", "3", Nan}, 3)}
  \cup {Case("MassIndex", Def("MassIndex"), 25, [mi |-> Nan], "10",
             [i \in 1 .. 4 |-> {S([mi |-> v], c) : v \in Near("53/2") \cup {"269999/10000", "27", "270001/10000", Nan},
                                                   c \in IF i = 4 THEN {"9", "10", "11"} ELSE {"10"}}])}
  \cup {Simple("ProjectionOscillator", Proj("50", "50"),
               Rep(4, {S(Proj(v, "50"), "10") : v \in {"499999/10000", "50", "500001/10000", Nan}})),
        Simple("ProjectionOscillator", Proj("50", "50"),
               Rep(4, {S(Proj(v, g), "10") : v \in Near(15) \cup Near(85), g \in {"10", "90"}}))}
  \cup {OneCol("Qstick", "qstick", {"-1/5000", "-1/10000", "0", "1/10000", "1/5000", Nan}, 4)}
  \cup {Case("RangeIndicator", Def("RangeIndicator"), 1, [ri |-> Nan], "10",
             [i \in 1 .. 3 |-> {S([ri |-> v], c) : v \in Near(20) \cup Near(70) \cup {Nan}, c \in IF i = 3 THEN {"9", "10", "11"} ELSE {"9", "10"}}])}
  \cup {Case("UltimateOscillator", Def("UltimateOscillator"), q, [uosc |-> u], "10",
             Rep(2, {S([uosc |-> v], c) : v \in Near(30) \cup {"499999/10000", "50", "500001/10000", Nan}, c \in {"9", "10", "11"}}))
          : q \in {27, 28, 29, 35}, u \in {"50", "20", Nan}}
  \cup {Case("VerticalHorizontalFilter", Def("VerticalHorizontalFilter"), q, [vhf |-> "2"], "10",
             Rep(3, {S([vhf |-> v], c) : v \in {"1", "2", "3", Nan}, c \in {"9", "11"}})) : q \in {1, 2, 9, 14}}
  \cup {OneCol("VolatilityChaikins", "vch", {"1", "2", "3", Nan}, 4)}
  \cup {OneCol("VolumeOscillator", "vosc", {"-1/10000", "0", "1/10000", "1/5000", "3/10000", Nan}, 3)}
  \cup {Case("WilliamsAccumulationDistribution", Def("WilliamsAccumulationDistribution"), q, [wad |-> "0"], "10",
             Rep(2, {S([wad |-> v], c) : v \in Near(0), c \in {"9", "10", "11"}})) : q \in {27, 28, 29, 33}}
  \cup {OneCol("WilliamsR", "wr", Near(-80) \cup Near(-50) \cup Near(-20) \cup {Nan}, 4)}

(* The same with a day without indicator data before the last day, or as   *)
(* the last day: rules look at consecutive rows, not at the last values.   *)
NanRow(cs) == S(TLCEval([k \in DOMAIN cs.row |-> Nan]), cs.close)
Gapped(cs) == [cs EXCEPT !.steps = SubSeq(@, 1, Len(@) - 1) \o <<{NanRow(cs)}, @[Len(@)]>>]
Ended(cs) == [cs EXCEPT !.steps = Append(@, {NanRow(cs)})]
RECURSIVE Paths(_)
Paths(steps) == IF steps = <<>> THEN 1 ELSE Cardinality(Head(steps)) * Paths(Tail(steps))
WithGaps(cases) == cases \cup {Gapped(cs) : cs \in {d \in cases : Paths(d.steps) <= 8000 /\ (Len(d.steps) > 1 \/ Family = "latest")}}
                         \cup {Ended(cs) : cs \in {d \in cases : Paths(d.steps) <= 1000}}
AllCases == SetToSeq(WithGaps(CASE Family = "cross" -> CrossCases [] Family = "latest" -> LatestCases [] OTHER -> PatternCases))
ASSUME TLCSet(1, TLCEval(AllCases))        \* computed once
Cases == TLCGet(1)
ASSUME PrintT("CASES " \o ToJson([i \in 1 .. Len(Cases) |->
          [name |-> Cases[i].name, p |-> Cases[i].p, quiet |-> Cases[i].quiet, row |-> Cases[i].row, close |-> Cases[i].close]]))

VARIABLES c, path, last          \* chosen steps, and the signals allowed now
vars == <<c, path, last>>
C == Cases[c]
Close(q) == TLCEval([i \in 1 .. (C.quiet + Len(q)) |-> IF i <= C.quiet THEN C.close ELSE q[i - C.quiet].close])
TiOf(q) == TLCEval([k \in DOMAIN C.row |->
             TLCEval([i \in 1 .. (C.quiet + Len(q)) |-> IF i <= C.quiet THEN C.row[k] ELSE q[i - C.quiet].ti[k]])])
Now(q) == LET x == [close |-> Close(q)]  ti == TiOf(q) IN SignalsOf(C.name, C.p, x, ti)
Init == c \in 1 .. Len(Cases) /\ path = <<>> /\ last = {}
Next == Len(path) < Len(C.steps) /\ \E s \in C.steps[Len(path) + 1] :
          /\ path' = Append(path, s)
          /\ last' = Now(path')
          /\ PrintT("REPLAY " \o ToJson([c |-> c, steps |-> [i \in 1 .. Len(path') |-> <<path'[i].close, path'[i].ti>>], sig |-> last']))
          /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* a signal is always defined, and never both buy and sell unless a tie is left open
InvSignal == Len(path) > 0 => /\ last # {} /\ last \subseteq {Buy, Hold, Sell}
\* with fewer rows than the rule looks at, it cannot fire
InvTooFew == (Len(path) > 0 /\ C.quiet + Len(path) < RuleRows(C.name)) => last = {Hold}
\* only missing values: no crossing and no pattern
InvMissing == (Len(path) > 0 /\ Family # "latest" /\ \A i \in 1 .. Len(path) : \A k \in DOMAIN path[i].ti : path[i].ti[k] = Nan)
                => Hold \in last
=============================================================================
