----------------------------- MODULE MCIndicators -----------------------------
(***************************************************************************)
(* Exhaustive model of indicators over small markets: starting from the    *)
(* given first days, every continuation by bars of a finite alphabet.      *)
(* CASES names a JSON file: Seq([id, name, p, x, bars : Seq(bar), depth]). *)
(*                                                                         *)
(* Checked: past values never change when a day is appended (NoRepaint);   *)
(* values stay in their range, bands in order, transforms between low and  *)
(* high (exact values, 15 decimals); a value is missing only where the     *)
(* formula is undefined is part of the definitions.  With emit, complete   *)
(* markets are printed with their exact values, for replay into the        *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS IndicatorProps, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.CASES))
Cases == TLCGet(1)
VARIABLES c, x, cols, path, phase
vars == <<c, x, cols, path, phase>>

C == Cases[c]
Values(name, p, m) == IF N(m) >= MinRows(name, p) THEN Ti(name, p, m) ELSE <<>>
Init == /\ c \in 1 .. Len(Cases)
        /\ x = C.x /\ cols = <<>> /\ path = <<>> /\ phase = "new"
Open == /\ phase = "new"
        /\ phase' = "run"
        /\ cols' = IF N(x) = 0 THEN <<>> ELSE Values(C.name, C.p, x)
        /\ UNCHANGED <<c, x, path>>
Close(b) ==
  /\ phase = "run" /\ Len(path) < C.depth
  /\ x' = TLCEval([k \in DOMAIN x |-> Append(x[k], C.bars[b][k])])
  /\ cols' = Values(C.name, C.p, x')
  /\ path' = Append(path, b)
  /\ UNCHANGED <<c, phase>>
  /\ (Len(path') = C.depth /\ C.emit) =>
        PrintT("REPLAY " \o ToJson([id |-> C.id, path |-> path', cols |-> cols']))
Next == Open \/ \E b \in 1 .. Len(C.bars) : Close(b)
Spec == Init /\ [][Next]_vars

Valid == \A i \in 1 .. N(x) : ValidBar(x, i)
Row(i) == [k \in 1 .. Len(cols) |-> RRound(cols[k].lo[i], 15)]
InvRange == Valid => \A i \in (IF cols = <<>> THEN {} ELSE 1 .. Len(cols[1].lo)) :
              /\ RowInRange(C.name, Row(i))
              /\ RowOrdered(C.name, Row(i))
              /\ RowNearPrice(C.name, x, i, Row(i), 0)
InvShape == cols # <<>> =>
  /\ [k \in 1 .. Len(cols) |-> cols[k].name] = Columns(C.name, C.p)
  /\ \A k \in 1 .. Len(cols) : LET w == N(x) - Omitted(C.name, C.p)
                               IN Len(cols[k].lo) = (IF w < 0 THEN 0 ELSE w) /\ Len(cols[k].hi) = Len(cols[k].lo)
InvInterval == \A k \in 1 .. Len(cols) : \A i \in 1 .. Len(cols[k].lo) :
  C.name # "RelativeStrengthIndex" => ((cols[k].lo[i] = "nan") <=> (cols[k].hi[i] = "nan"))
NoRepaint == [][(cols # <<>> /\ C.name # "FibonacciRetracement") =>
                  \A k \in 1 .. Len(cols) : \A i \in 1 .. Len(cols[k].lo) :
                     cols'[k].lo[i] = cols[k].lo[i] /\ cols'[k].hi[i] = cols[k].hi[i]]_vars
=============================================================================
