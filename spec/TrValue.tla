--------------------------------- MODULE TrValue ---------------------------------
(***************************************************************************)
(* Validation of recorded queries.  A trace is one indicator object:       *)
(*  [id, name, p, input : Seq(instant), in the order of the frame's rows,  *)
(*   at : Seq(instant) index of getTiData(), rows : Seq(values in column   *)
(*   order), q : Seq([kind, at, form, tag, got])]                          *)
(* tag: "list" (got holds its values), "None", or what was returned or     *)
(* raised instead.                                                         *)
(***************************************************************************)
EXTENDS Value, Catalog, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)
VARIABLES t, l, bad, first
vars == <<t, l, bad, first>>
T == Traces[t]
When(b, c) == IF b THEN {c} ELSE {}
Init == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ first = 0
        /\ bad = When(Traces[t].at # RowsAt(Traces[t].input, Omitted(Traces[t].name, Traces[t].p)), "index")
Step ==
  /\ l >= 0 /\ l < Len(T.q) /\ l' = l + 1
  /\ LET q == T.q[l + 1]
         row == Answer(T.at, q)
         b == IF row = 0 THEN When(q.tag # "None", IF q.tag = "list" THEN "unknown-date" ELSE "raised")
              ELSE IF q.tag = "list" THEN When(q.got # T.rows[row], "value") ELSE {"lost"}
     IN /\ bad' = bad \cup b
        /\ first' = IF b # {} /\ first = 0 THEN l + 1 ELSE first
  /\ UNCHANGED t
Finish ==
  /\ l >= Len(T.q) /\ l' = -9
  /\ PrintT(ToJson([v |-> IF bad = {} THEN "DONE" ELSE "REJECT", id |-> T.id, at |-> first, clauses |-> bad]))
  /\ UNCHANGED <<t, bad, first>>
Next == l # -9 /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
