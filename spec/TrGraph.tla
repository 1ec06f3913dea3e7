--------------------------------- MODULE TrGraph ---------------------------------
(***************************************************************************)
(* Validation of recorded graphs.  A trace is one object with the figures  *)
(* that were drawn:                                                        *)
(*  [id, name, p, fill, x : input data in date order, days : Seq(instant), *)
(*   names, cols : Seq(series) of the published data,                      *)
(*   figs : Seq([kind, fig, stock, exposure, balance]) (the columns of the *)
(*   simulation for kind "simulation"), untouched : data are as before]    *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)
VARIABLES t, l, bad, first
vars == <<t, l, bad, first>>
T == Traces[t]
Data == IF T.fill THEN Filled(T.x) ELSE T.x
When(b, c) == IF b THEN {c} ELSE {}
Init == /\ t \in 1 .. Len(Traces) /\ l = 0 /\ first = 0
        /\ bad = When(~Traces[t].untouched, "data-changed")
Step ==
  /\ l >= 0 /\ l < Len(T.figs) /\ l' = l + 1
  /\ LET f == T.figs[l + 1]
         want == IF T.names # Columns(T.name, T.p) \/ Len(T.days) # N(T.x) \/ Len(T.cols[1]) > N(T.x) THEN f.fig        \* module TrIndicators' business
                 ELSE IF f.kind = "graph" THEN GraphOf(T.name, T.p, T.days, Data, T.names, T.cols)
                 ELSE SimulationGraph(T.name, f.stock, f.exposure, f.balance)
         b == IF f.error # "" THEN {f.kind \o "-raised"} ELSE {f.kind \o "-" \o d : d \in Differences(f.fig, want)}
     IN /\ bad' = bad \cup b
        /\ first' = IF b # {} /\ first = 0 THEN l + 1 ELSE first
  /\ UNCHANGED t
Finish ==
  /\ l >= Len(T.figs) /\ l' = -9
  /\ PrintT(ToJson([v |-> IF bad = {} THEN "DONE" ELSE "REJECT", id |-> T.id, at |-> first, clauses |-> bad]))
  /\ UNCHANGED <<t, bad, first>>
Next == l # -9 /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
