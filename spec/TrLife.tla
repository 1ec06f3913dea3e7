--------------------------------- MODULE TrLife ---------------------------------
(***************************************************************************)
(* Validation of recorded lives.  A trace is one indicator object:         *)
(*  [id, name, p, x : input data as the indicator sees them, names, rows : *)
(*   published data, exact : the data are in the domain of the rules,      *)
(*   sig : Seq(signal recorded by a simulation for a row), beyond : signals*)
(*   recorded for days without a row, index : simulation rows are the      *)
(*   input dates in order, finals : Seq(getTiSignal() asked several times  *)
(*   on several equal objects), fresh : Seq([k, s]) the signal of the      *)
(*   indicator of the first k days, from : first day to judge exactly]     *)
(***************************************************************************)
EXTENDS Life, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)
VARIABLES t, l, bad, first
vars == <<t, l, bad, first>>
T == Traces[t]
Cols == TLCEval([k \in {T.names[j] : j \in 1 .. Len(T.names)} |->
           LET j == CHOOSE j \in 1 .. Len(T.names) : T.names[j] = k IN TLCEval([r \in 1 .. Len(T.rows) |-> T.rows[r][j]])])
Days == N(T.x)
Known == (T.names = Columns(T.name, T.p) /\ Len(T.rows) <= Days)      \* other columns are module TrIndicators' business
When(b, c) == IF b THEN {c} ELSE {}
Init == /\ t \in 1 .. Len(Traces) /\ first = 0 /\ l = IF Known THEN 0 ELSE -5
        /\ bad = When(Len(T.sig) # Len(T.rows) \/ T.beyond # <<>> \/ ~T.index, "sim-rows")
Step ==
  /\ l >= 0 /\ l < Len(T.rows) /\ l' = l + 1
  /\ LET i == l + 1
         now == Upto(Cols, i)
         s == IF i <= Len(T.sig) THEN T.sig[i] ELSE "no signal"
         fresh == {T.fresh[j].s : j \in {j \in 1 .. Len(T.fresh) : T.fresh[j].k = i}}
         \* an indicator whose past changes has other rows on day i than these
         all == {s} \cup (IF Stable(T.name) THEN fresh ELSE {}) \cup (IF i = Len(T.rows) THEN {T.finals[j] : j \in 1 .. Len(T.finals)} ELSE {})
         b == When(~(all \cup fresh \subseteq Valid3), "invalid")
              \cup When(all \subseteq Valid3 /\ ~(all \subseteq Always(T.name, now)), "early")
              \cup When(T.exact /\ i >= T.from /\ s \notin SignalsOf(T.name, T.p, Upto(T.x, i), now), "sim-signal")
              \cup When(Stable(T.name) /\ T.steady /\ \E f \in fresh : f # s, "look-ahead")
     IN /\ bad' = bad \cup b
        /\ first' = IF b # {} /\ first = 0 THEN i ELSE first
  /\ UNCHANGED t
Finish ==
  /\ l >= Len(T.rows) \/ l = -5
  /\ l' = -9
  /\ LET all == {T.finals[j] : j \in 1 .. Len(T.finals)}
         b == IF ~Known THEN {"columns"} ELSE bad \cup When(\E f, g \in all : f # g, "unstable")
              \cup When(Len(T.rows) = 0 /\ ~(all \subseteq {Hold}), "early")
              \cup When(Len(T.rows) = Days /\ Len(T.rows) > 0 /\ Len(T.sig) = Len(T.rows) /\ \E f \in all : f # T.sig[Len(T.rows)], "last")
     IN PrintT(ToJson([v |-> IF b = {} THEN "DONE" ELSE "REJECT", id |-> T.id, at |-> IF first = 0 THEN l ELSE first, clauses |-> b]))
  /\ UNCHANGED <<t, bad, first>>
Next == l # -9 /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
