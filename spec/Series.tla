-------------------------------- MODULE Series --------------------------------
(***************************************************************************)
(* Time series: sequences of rational numbers (module Rat) in date order,  *)
(* with "nan" for a missing value.  The combinators are the vocabulary of  *)
(* the indicator definitions (module Indicators).                          *)
(*                                                                         *)
(* A window combinator yields a missing value until its window is complete *)
(* and whenever a value of the window is missing or infinite.              *)
(***************************************************************************)
EXTENDS Rat, TLC, FiniteSets, SequencesExt

Fin(v) == IF RIsFin(v) THEN v ELSE "nan"            \* infinities count as missing inside windows
NaNs(n) == [i \in 1 .. n |-> "nan"]
Const(n, c) == [i \in 1 .. n |-> c]
Map1(F(_), a) == TLCEval([i \in 1 .. Len(a) |-> F(a[i])])
Map2(F(_, _), a, b) == TLCEval([i \in 1 .. Len(a) |-> F(a[i], b[i])])

SAdd(a, b) == TLCEval([i \in 1 .. Len(a) |-> RAdd(a[i], b[i])])
SSub(a, b) == TLCEval([i \in 1 .. Len(a) |-> RSub(a[i], b[i])])
SMul(a, b) == TLCEval([i \in 1 .. Len(a) |-> RMul(a[i], b[i])])
SDiv(a, b) == TLCEval([i \in 1 .. Len(a) |-> RDiv(a[i], b[i])])
SAbs(a)    == TLCEval([i \in 1 .. Len(a) |-> RAbs(a[i])])
Scale(k, a) == TLCEval([i \in 1 .. Len(a) |-> RMul(k, a[i])])
SRound(a, k) == TLCEval([i \in 1 .. Len(a) |-> RRound(a[i], k)])

\* value of k days earlier (k > 0) or later (k < 0)
Shift(a, k) == TLCEval([i \in 1 .. Len(a) |-> IF i - k \in 1 .. Len(a) THEN a[i - k] ELSE "nan"])
Diff(a, k) == SSub(a, Shift(a, k))
Pct(a, k) == SDiv(Diff(a, k), Shift(a, k))

Window(a, i, w) == SubSeq(a, i - w + 1, i)
\* F of every complete window without missing values
Roll(F(_), a, w) ==
  LET b == Map1(Fin, a)
  IN TLCEval([i \in 1 .. Len(a) |->
       IF i < w THEN "nan"
       ELSE LET win == Window(b, i, w)
            IN IF \E j \in 1 .. w : win[j] = "nan" THEN "nan" ELSE F(win)])
RollSum(a, w)  == Roll(RSum, a, w)
RollMax(a, w)  == Roll(RMaxSeq, a, w)
RollMin(a, w)  == Roll(RMinSeq, a, w)
Mean(s) == RDiv(RSum(s), Len(s))
RollMean(a, w) == Roll(Mean, a, w)
\* population standard deviation (14 decimals)
StdDev(s) ==
  LET m == Mean(s)
  IN RSqrt(RDiv(RSum([j \in 1 .. Len(s) |-> RMul(RSub(s[j], m), RSub(s[j], m))]), Len(s)), 14)
RollStd(a, w)  == Roll(StdDev, a, w)

\* window combinators over whatever part of the window is there (at least minp present values)
Present(s) == SelectSeq(s, LAMBDA v : v # "nan")
RollPart(F(_), a, w, minp) ==
  LET b == Map1(Fin, a)
  IN TLCEval([i \in 1 .. Len(a) |->
       LET win == Present(Window(b, i, IF i < w THEN i ELSE w))
       IN IF Len(win) < minp THEN "nan" ELSE F(win)])

(***************************************************************************)
(* Exponentially weighted mean with weight alpha for the newest value,     *)
(* started at the first present value; missing until minp values have been *)
(* seen.  A missing value keeps the mean and lets its weight decay.        *)
(* Intermediate means are kept to 30 decimals.                             *)
(***************************************************************************)
Ewm(a, alpha, minp) ==
  LET step(s, v0) ==
        LET v == Fin(v0)
            seen == v # "nan"
            nobs == IF seen THEN s.nobs + 1 ELSE s.nobs
            decayed == RMul(s.wt, RSub(1, alpha))
            mean == IF s.mean = "nan" THEN v
                    ELSE IF seen THEN RRound(RDiv(RAdd(RMul(decayed, s.mean), RMul(alpha, v)), RAdd(decayed, alpha)), 30)
                    ELSE s.mean
            wt == IF s.mean = "nan" \/ seen THEN "1" ELSE decayed
        IN TLCEval([mean |-> mean, wt |-> wt, nobs |-> nobs,
                    out |-> Append(s.out, IF nobs >= minp THEN mean ELSE "nan")])
  IN FoldLeft(step, [mean |-> "nan", wt |-> "1", nobs |-> 0, out |-> <<>>], a).out
Ema(a, span) == Ewm(a, RDiv(2, span + 1), span)

\* running total; missing values are skipped and stay missing
CumSum(a) ==
  LET step(s, v) == IF v = "nan" THEN [sum |-> s.sum, out |-> Append(s.out, "nan")]
                    ELSE LET t == RAdd(s.sum, v) IN TLCEval([sum |-> t, out |-> Append(s.out, t)])
  IN FoldLeft(step, [sum |-> "0", out |-> <<>>], a).out

\* series defined by recursion over the days: out[i] = F(i, out[i-1]), out[from] = seed, missing before
Recur(n, from, seed, F(_, _)) ==
  LET step(s, i) == IF i < from THEN Append(s, "nan")
                    ELSE IF i = from THEN Append(s, seed)
                    ELSE TLCEval(Append(s, F(i, s[i - 1])))
  IN FoldLeft(step, <<>>, [i \in 1 .. n |-> i])

\* least squares line through the last w values: slope per day, and value on the last day
FitSlope(s) ==
  LET w  == Len(s)
      sx == RStr(w * (w + 1), 2)
      sxx == RStr(w * (w + 1) * (2 * w + 1), 6)
      sxy == RSum([j \in 1 .. w |-> RMul(j, s[j])])
  IN RDiv(RSub(RMul(w, sxy), RMul(sx, RSum(s))), RSub(RMul(w, sxx), RMul(sx, sx)))
FitEnd(s) == RAdd(Mean(s), RMul(FitSlope(s), RStr(Len(s) - 1, 2)))

Where(c(_), a, b) == TLCEval([i \in 1 .. Len(a) |-> IF c(i) THEN a[i] ELSE b[i]])
\* maximum/minimum of the present ones
MaxPresent(s) == LET q == Present(s) IN IF q = <<>> THEN "nan" ELSE RMaxSeq(q)
MinPresent(s) == LET q == Present(s) IN IF q = <<>> THEN "nan" ELSE RMinSeq(q)
PosPart(v) == IF RLt(v, 0) THEN "0" ELSE v          \* missing stays missing
NegPart(v) == IF RLt(0, v) THEN "0" ELSE v

\* last present value before, then first present value after
FillGaps(a) ==
  LET fwd(s, v) == Append(s, IF v # "nan" THEN v ELSE IF s = <<>> THEN "nan" ELSE s[Len(s)])
      f == FoldLeft(fwd, <<>>, a)
      first == MinPresent(<<>>)
  IN TLCEval([i \in 1 .. Len(a) |->
       IF f[i] # "nan" THEN f[i]
       ELSE LET later == {j \in i .. Len(a) : f[j] # "nan"}
            IN IF later = {} THEN "nan" ELSE f[CHOOSE j \in later : \A k \in later : j <= k]])
=============================================================================
