--------------------------------- MODULE MCLife ---------------------------------
(***************************************************************************)
(* The life of every indicator over small markets: starting from the given *)
(* first days, every continuation by bars of a finite alphabet (a bar may  *)
(* have missing values).  CASES: Seq([id, name, p, x, bars, depth, fill]). *)
(* Each state holds the simulation of the market up to now, from the last  *)
(* given day on.                                                           *)
(***************************************************************************)
EXTENDS Life, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(1)
VARIABLES c, x, ti, sim, path
vars == <<c, x, ti, sim, path>>
C == Cases[c]
Given == LET k == CHOOSE k \in DOMAIN C.x : TRUE IN Len(C.x[k])
From == IF Given > 0 THEN Given ELSE 1
Seen(m) == IF C.fill THEN Filled(m) ELSE m
TiOf(m) == IF N(m) < MinRows(C.name, C.p) THEN <<>> ELSE Publish(C.name, Ti(C.name, C.p, Seen(m)))
SimOf(m, t) == IF t = <<>> THEN <<>> ELSE Simulated(C.name, C.p, Seen(m), t, From)
Init == /\ c \in 1 .. Len(Cases)
        /\ x = Cases[c].x /\ path = <<>> /\ ti = <<>> /\ sim = <<>>
Close(b) ==
  /\ Len(path) < C.depth
  /\ x' = TLCEval([k \in DOMAIN x |-> Append(x[k], C.bars[b][k])])
  /\ path' = Append(path, b)
  /\ ti' = TLCEval(TiOf(x'))
  /\ sim' = TLCEval(SimOf(x', ti'))
  /\ UNCHANGED c
  /\ Len(path') = C.depth =>
        PrintT("REPLAY " \o ToJson([id |-> C.id, path |-> path', from |-> From, built |-> ti' # <<>>,
              rows |-> IF ti' = <<>> THEN 0 ELSE RoundsOf(ti'),
              sim |-> [i \in 1 .. (IF sim' = <<>> THEN 0 ELSE RoundsOf(ti') - From + 1) |-> sim'[From + i - 1]],
              early |-> ti' # <<>> /\ Determined(ti') /\ Early(C.name, ti')]))
Next == \E b \in 1 .. Len(C.bars) : Close(b)
Spec == Init /\ [][Next]_vars

InvValid == \A i \in DOMAIN sim : sim[i] # {} /\ sim[i] \subseteq Valid3
InvEarly == (ti # <<>> /\ Determined(ti) /\ Early(C.name, ti)) => \A i \in DOMAIN sim : sim[i] = {Hold}
\* leading missing values are the only ones that are filled from later days
Anchored == C.fill => \A k \in DOMAIN x : \E i \in 1 .. From : i <= N(x) /\ x[k][i] # "nan"
\* the simulation of a longer market begins with the simulation of the shorter one
NoLookAhead == [][(Stable(C.name) /\ Anchored /\ sim # <<>>) => \A i \in DOMAIN sim : i \in DOMAIN sim' /\ sim'[i] = sim[i]]_vars
\* rounds only look at the rows up to their day, whatever the indicator
RoundsAppend == [][(ti # <<>> /\ ti' # <<>> /\ C.name # "FibonacciRetracement") => RoundsOf(ti') >= RoundsOf(ti)]_vars
=============================================================================
