--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact arithmetic on rational numbers extended with "not a number"       *)
(* (missing value) and the two infinities, as pandas treats them.          *)
(*                                                                         *)
(* TLC's integers have 32 bits, so a number is represented by a string in  *)
(* canonical form: "n" for an integer, "n/d" in lowest terms with d > 1,   *)
(* "nan", "inf" or "-inf".  Integers of TLA+ are accepted as arguments     *)
(* everywhere.  The definitions below give the meaning of each operator in *)
(* terms of numerator and denominator; TLC evaluates the operators with    *)
(* java/Rat.java (module override), and RatCheck.tla model checks that the *)
(* Java code agrees with these definitions on a finite domain.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

RStr(n, d) == CHOOSE s \in STRING : TRUE     \* canonical string of n/d, d # 0  (Java)
RNum(a)    == CHOOSE n \in Int : TRUE        \* numerator of a finite number    (Java)
RDen(a)    == CHOOSE d \in Int : d > 0       \* denominator of a finite number  (Java)

RIsNan(a) == a = "nan"
RIsFin(a) == a \notin {"nan", "inf", "-inf"}

DefSign(a) == CASE a = "inf" -> 1 [] a = "-inf" -> -1 [] a = "nan" -> 0
                [] OTHER -> IF RNum(a) > 0 THEN 1 ELSE IF RNum(a) < 0 THEN -1 ELSE 0
DefInf(s)  == IF s > 0 THEN "inf" ELSE IF s < 0 THEN "-inf" ELSE "nan"

DefNeg(a) == CASE a = "nan" -> "nan" [] a = "inf" -> "-inf" [] a = "-inf" -> "inf"
               [] OTHER -> RStr(0 - RNum(a), RDen(a))
DefAdd(a, b) ==
  IF RIsFin(a) /\ RIsFin(b)
    THEN RStr(RNum(a) * RDen(b) + RNum(b) * RDen(a), RDen(a) * RDen(b))
  ELSE IF RIsNan(a) \/ RIsNan(b) THEN "nan"
  ELSE IF RIsFin(a) THEN b ELSE IF RIsFin(b) THEN a
  ELSE IF a = b THEN a ELSE "nan"
DefMul(a, b) ==
  IF RIsFin(a) /\ RIsFin(b) THEN RStr(RNum(a) * RNum(b), RDen(a) * RDen(b))
  ELSE DefInf(DefSign(a) * DefSign(b))
DefDiv(a, b) ==
  IF RIsNan(a) \/ RIsNan(b) THEN "nan"
  ELSE IF ~RIsFin(b) THEN (IF RIsFin(a) THEN "0" ELSE "nan")
  ELSE IF DefSign(b) = 0 THEN DefInf(DefSign(a))
  ELSE IF ~RIsFin(a) THEN DefInf(DefSign(a) * DefSign(b))
  ELSE RStr(RNum(a) * RDen(b), RDen(a) * RNum(b))
DefLt(a, b) ==
  /\ ~RIsNan(a) /\ ~RIsNan(b)
  /\ IF RIsFin(a) /\ RIsFin(b) THEN RNum(a) * RDen(b) < RNum(b) * RDen(a)
     ELSE a # b /\ (a = "-inf" \/ b = "inf")
DefEq(a, b) == ~RIsNan(a) /\ a = b
\* Round half to even at k decimals
DefRound(a, k) ==
  IF ~RIsFin(a) THEN a
  ELSE LET p == 10 ^ k
           n == RNum(a) * p
           f == n \div RDen(a)                    \* floor, RDen > 0
           r == 2 * (n - f * RDen(a))
       IN RStr(IF r > RDen(a) \/ (r = RDen(a) /\ f % 2 = 1) THEN f + 1 ELSE f, p)
DefTrunc(a) == IF ~RIsFin(a) THEN a
               ELSE IF RNum(a) >= 0 THEN RStr(RNum(a) \div RDen(a), 1)
               ELSE RStr(0 - ((0 - RNum(a)) \div RDen(a)), 1)
DefSqrt(a, k) ==
  IF RIsNan(a) \/ DefSign(a) < 0 THEN "nan"
  ELSE IF a = "inf" THEN a
  ELSE LET p == 10 ^ k
           m == CHOOSE m \in 0 .. ((RNum(a) + 1) * p) :
                  /\ m * m * RDen(a) <= RNum(a) * p * p
                  /\ (m + 1) * (m + 1) * RDen(a) > RNum(a) * p * p
       IN RStr(m, p)

RECURSIVE DefSum(_)
DefSum(s) == IF s = <<>> THEN "0" ELSE DefAdd(DefSum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE DefMaxSeq(_)
DefMax(a, b) == IF RIsNan(a) \/ RIsNan(b) THEN "nan" ELSE IF DefLt(a, b) THEN b ELSE a
DefMin(a, b) == IF RIsNan(a) \/ RIsNan(b) THEN "nan" ELSE IF DefLt(b, a) THEN b ELSE a
DefMaxSeq(s) == IF s = <<>> THEN "nan" ELSE IF Len(s) = 1 THEN s[1] ELSE DefMax(s[1], DefMaxSeq(Tail(s)))
RECURSIVE DefMinSeq(_)
DefMinSeq(s) == IF s = <<>> THEN "nan" ELSE IF Len(s) = 1 THEN s[1] ELSE DefMin(s[1], DefMinSeq(Tail(s)))

(* The operators used by the specifications (overridden by java/Rat.java). *)
RNeg(a)      == DefNeg(a)
RAbs(a)      == IF DefSign(a) < 0 THEN DefNeg(a) ELSE a
RAdd(a, b)   == DefAdd(a, b)
RSub(a, b)   == DefAdd(a, DefNeg(b))
RMul(a, b)   == DefMul(a, b)
RDiv(a, b)   == DefDiv(a, b)
RLt(a, b)    == DefLt(a, b)
REq(a, b)    == DefEq(a, b)
RLe(a, b)    == DefLt(a, b) \/ DefEq(a, b)
RMax(a, b)   == DefMax(a, b)
RMin(a, b)   == DefMin(a, b)
RRound(a, k) == DefRound(a, k)
RTrunc(a)    == DefTrunc(a)
RSqrt(a, k)  == DefSqrt(a, k)
RSum(s)      == DefSum(s)
RMaxSeq(s)   == DefMaxSeq(s)
RMinSeq(s)   == DefMinSeq(s)

(* Derived, not overridden *)
RGt(a, b)  == RLt(b, a)
RGe(a, b)  == RLe(b, a)
RPos(a)    == RLt(0, a)
RNegative(a) == RLt(a, 0)
RNe(a, b)  == ~REq(a, b)
\* |a - b| <= abs + rel * (|a| + |b|); two missing values, or two equal infinities, are close
RNear(a, b, abs, rel) ==
  IF RIsFin(a) /\ RIsFin(b)
    THEN RLe(RAbs(RSub(a, b)), RAdd(abs, RMul(rel, RAdd(RAbs(a), RAbs(b)))))
    ELSE a = b
=============================================================================
