---------------------------------- MODULE Life ----------------------------------
(***************************************************************************)
(* The life of an indicator along the market: at the close of every day    *)
(* it has published rows and a signal.  A simulation of the whole market   *)
(* replays this life: it has one round per published row, in date order,   *)
(* and round i sees input and indicator data that end at day i.            *)
(***************************************************************************)
EXTENDS Signals, Catalog

Valid3 == {Buy, Hold, Sell}
Upto(x, i) == TLCEval([k \in DOMAIN x |-> SubSeq(x[k], 1, i)])

(* Published values: the definitions give intervals (lo, hi), the result   *)
(* is rounded.  When both ends and their neighbourhood do not round to the *)
(* same number, the published value is not determined ("?").               *)
Wobble(v) == RAdd("1/1000000000", RMul("1/1000000000000", RAbs(v)))
Published(name, lo, hi) ==
  IF ~RIsFin(lo) \/ ~RIsFin(hi) THEN (IF lo = hi THEN lo ELSE "?")
  ELSE IF Decimals(name) = -1 THEN (IF lo = hi THEN lo ELSE "?")
  ELSE LET d == Decimals(name)
           w == IF d = 10 THEN "1/1000000000000000" ELSE Wobble(lo)
           a == RRound(RSub(RMin(lo, hi), w), d)  b == RRound(RAdd(RMax(lo, hi), w), d)
       IN IF a = b THEN a ELSE "?"
Publish(name, cols) ==
  TLCEval([k \in {cols[j].name : j \in 1 .. Len(cols)} |->
     LET c == CHOOSE c \in {cols[j] : j \in 1 .. Len(cols)} : c.name = k
     IN TLCEval([i \in 1 .. Len(c.lo) |-> Published(name, c.lo[i], c.hi[i])])])
Determined(ti) == \A k \in DOMAIN ti : \A i \in 1 .. Len(ti[k]) : ti[k][i] # "?"

\* the signals that round i of a simulation may show
Round(name, p, x, ti, i) ==
  LET now == Upto(ti, i) IN IF Determined(now) THEN SignalsOf(name, p, Upto(x, i), now) ELSE Valid3
RoundsOf(ti) == LET k == CHOOSE k \in DOMAIN ti : TRUE IN Len(ti[k])
Simulated(name, p, x, ti, from) == TLCEval([i \in from .. RoundsOf(ti) |-> Round(name, p, x, ti, i)])

(* Too early for a signal: fewer rows than the rule looks at, or nothing   *)
(* but missing values, and the rule is a crossing or a pattern.            *)
Early(name, ti) ==
  /\ name \notin LatestNames
  /\ \/ RoundsOf(ti) < RuleRows(name)
     \/ \A k \in DOMAIN ti : \A i \in 1 .. Len(ti[k]) : ti[k][i] = "nan"
Always(name, ti) == IF Early(name, ti) THEN {Hold} ELSE Valid3

\* indicators whose published past never changes, so that the indicator of the first i days gives round i
Stable(name) == name \notin {"FibonacciRetracement", "DetrendedPriceOscillator"}
=============================================================================
