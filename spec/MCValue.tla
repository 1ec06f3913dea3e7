--------------------------------- MODULE MCValue ---------------------------------
(***************************************************************************)
(* All sets of input instants out of Grid with up to MaxRows rows, in an   *)
(* arbitrary order, and all queries around them.  The instants of the      *)
(* grid are quarters of a day (360 minutes).                               *)
(***************************************************************************)
EXTENDS Value, Json
CONSTANTS Grid, MaxRows, Omit
VARIABLES input, omitted, answers
vars == <<input, omitted, answers>>
Queries == {[kind |-> "latest", at |-> 0], [kind |-> "nodate", at |-> 0]} \cup {[kind |-> "date", at |-> 360 * g] : g \in Grid}
Perms(S) == {f \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i # j => f[i] # f[j]}
Init == /\ \E S \in SUBSET Grid : Cardinality(S) \in 1 .. MaxRows /\ \E f \in Perms(S) : input = [i \in 1 .. Cardinality(S) |-> 360 * f[i]]
        /\ omitted \in Omit /\ answers = <<>>
Ask == /\ answers = <<>>
       /\ answers' = [q \in Queries |-> Answer(RowsAt(input, omitted), q)]
       /\ PrintT("REPLAY " \o ToJson([input |-> input, omitted |-> omitted,
             asked |-> {[kind |-> q.kind, at |-> q.at, row |-> answers'[q]] : q \in Queries}]))
       /\ UNCHANGED <<input, omitted>>
Spec == Init /\ [][Ask]_vars
R == RowsAt(input, omitted)
\* every row is found by its own instant and by no other; the latest row is the one with the greatest instant
InvFound == answers # <<>> => \A q \in Queries :
  /\ (q.kind = "date" /\ answers[q] # 0) => R[answers[q]] = q.at
  /\ (q.kind = "date" /\ answers[q] = 0) => \A i \in 1 .. Len(R) : R[i] # q.at
  /\ q.kind = "nodate" => answers[q] = 0
  /\ (q.kind = "latest" /\ Len(R) > 0) => \A i \in 1 .. Len(R) : R[i] <= R[answers[q]]
  /\ (q.kind = "latest" /\ Len(R) = 0) => answers[q] = 0
InvAscending == \A i, j \in 1 .. Len(R) : i < j => R[i] < R[j]
=============================================================================
