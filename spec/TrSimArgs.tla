-------------------------------- MODULE TrSimArgs --------------------------------
(***************************************************************************)
(* Validation of recorded simulations' arguments.  A trace is one call:    *)
(*  [id, input, close, cap, factor, outcome : "ok" or the error,           *)
(*   stock : Seq(stock_value of the simulated days), days : Seq(day) index *)
(*   of the simulation, twin : TRUE iff everything equals the simulation   *)
(*   with the plain close frame (sorted, filled, lower case)]              *)
(***************************************************************************)
EXTENDS SimArgs, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)
VARIABLES t, done
T == Traces[t]
When(b, c) == IF b THEN {c} ELSE {}
Bad == LET o == Outcomes(T.close, T.input, T.cap, T.factor)
       IN When(T.outcome \notin o, "outcome")
          \cup When(T.outcome = "ok" /\ o = {"ok"} /\ T.days # Ascending(T.input), "days")
          \cup When(T.outcome = "ok" /\ o = {"ok"} /\ T.stock # SubSeq(Prices(T.close), 1, Len(T.stock)), "prices")
          \cup When(T.outcome = "ok" /\ o = {"ok"} /\ ~T.twin, "twin")
Init == t \in 1 .. Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED t
        /\ PrintT(ToJson([v |-> IF Bad = {} THEN "DONE" ELSE "REJECT", id |-> T.id, at |-> 0, clauses |-> Bad]))
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================
