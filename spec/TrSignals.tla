------------------------------- MODULE TrSignals -------------------------------
(***************************************************************************)
(* Validation of recorded signals.  A trace is one indicator object:       *)
(*  [id, name, p, x : the input data in date order, fill, names, rows :    *)
(*   published indicator data, sig : Seq(signal at the end of day i, from a          *)
(*   simulation), from : first day to judge, final : getTiSignal()]        *)
(***************************************************************************)
EXTENDS Signals, Catalog, Json, IOUtils
\* (other columns than the documented ones are module TrIndicators' business)
ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)
VARIABLES t, l, seen, bad, first, fired
vars == <<t, l, seen, bad, first, fired>>
T == Traces[t]
X(i) == TLCEval([k \in DOMAIN seen |-> SubSeq(seen[k], 1, i)])
TiTo(i) == TLCEval([k \in {T.names[j] : j \in 1 .. Len(T.names)} |->
              LET j == CHOOSE j \in 1 .. Len(T.names) : T.names[j] = k IN TLCEval([r \in 1 .. i |-> T.rows[r][j]])])
Days == N(T.x)
Known == T.names = <<"error">> \/ (T.names = Columns(T.name, T.p) /\ Len(T.rows) <= Days)
Init == /\ t \in 1 .. Len(Traces) /\ seen = (IF Traces[t].fill THEN Filled(Traces[t].x) ELSE Traces[t].x) /\ bad = {} /\ first = 0 /\ fired = 0
        /\ l = IF Known THEN T.from - 1 ELSE -5
Step ==
  /\ l >= 0 /\ l < Len(T.rows) /\ l' = l + 1
  /\ LET s == IF l + 1 <= Len(T.sig) THEN T.sig[l + 1] ELSE "none"
         ok == s \in SignalsOf(T.name, T.p, X(l + 1), TiTo(l + 1))
     IN /\ bad' = IF ok THEN bad ELSE bad \cup {"signal"}
        /\ first' = IF ~ok /\ first = 0 THEN l + 1 ELSE first
        /\ fired' = IF s \in {Buy, Sell} THEN fired + 1 ELSE fired
  /\ UNCHANGED <<t, seen>>
Finish ==
  /\ l >= Len(T.rows) \/ l = -5
  /\ LET b == bad \cup (IF ~Known THEN {"columns"} ELSE IF T.final \in SignalsOf(T.name, T.p, X(Days), TiTo(Len(T.rows))) THEN {} ELSE {"final"})
     IN PrintT(ToJson([v |-> IF b = {} THEN "DONE" ELSE "REJECT", id |-> T.id, at |-> IF first = 0 THEN l ELSE first,
                       clauses |-> b, fired |-> fired]))
  /\ l' = -9 /\ UNCHANGED <<t, seen, bad, first, fired>>
Next == l # -9 /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
