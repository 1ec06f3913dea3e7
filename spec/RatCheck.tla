------------------------------ MODULE RatCheck ------------------------------
(* Model checks java/Rat.java against the definitions of Rat.tla on all     *)
(* pairs of numbers n/d with |n| <= N, 1 <= d <= D, and nan, inf, -inf.     *)
EXTENDS Rat, TLC
CONSTANTS N, D
VARIABLES a, b
vars == <<a, b>>
Nums == {RStr(n, d) : n \in (0 - N) .. N, d \in 1 .. D} \cup {"nan", "inf", "-inf"}
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED vars
Canon(s) == RIsFin(s) => RStr(RNum(s), RDen(s)) = s /\ RDen(s) > 0
Agree ==
  /\ Canon(a)
  /\ RAdd(a, b) = DefAdd(a, b) /\ RSub(a, b) = DefAdd(a, DefNeg(b))
  /\ RMul(a, b) = DefMul(a, b) /\ RDiv(a, b) = DefDiv(a, b)
  /\ RNeg(a) = DefNeg(a) /\ RAbs(a) = (IF DefSign(a) < 0 THEN DefNeg(a) ELSE a)
  /\ RLt(a, b) = DefLt(a, b) /\ REq(a, b) = DefEq(a, b)
  /\ RLe(a, b) = (DefLt(a, b) \/ DefEq(a, b))
  /\ RMax(a, b) = DefMax(a, b) /\ RMin(a, b) = DefMin(a, b)
  /\ RTrunc(a) = DefTrunc(a)
  /\ \A k \in 0 .. 2 : RRound(a, k) = DefRound(a, k)
  /\ RSqrt(a, 1) = DefSqrt(a, 1)
  /\ RSum(<<a, b, a>>) = DefSum(<<a, b, a>>)
  /\ RMaxSeq(<<a, b>>) = DefMaxSeq(<<a, b>>) /\ RMinSeq(<<b, a>>) = DefMinSeq(<<b, a>>)
  /\ (RIsFin(a) => (RDen(a) = 1 => RAdd(RNum(a), b) = RAdd(a, b)))
Spec == Init /\ [][Next]_vars
=============================================================================
