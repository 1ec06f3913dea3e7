-------------------------------- MODULE MCFrame --------------------------------
(***************************************************************************)
(* A caller prepares its frame: starting from clean data it moves rows and *)
(* columns, respells and adds columns and leaves values out, in any order, *)
(* up to Depth steps.  FRAMES names a JSON file:                           *)
(*   Seq([id, required : Seq(name), days, cols, depth, moves : Seq(kind)]) *)
(* Checked: only leaving a value out changes the normalised data           *)
(* (PropReorder); filling means what it should (InvFill).  Every reachable *)
(* frame is printed with its normalised data, for replay.                  *)
(***************************************************************************)
EXTENDS Frame, Json, IOUtils
ASSUME TLCSet(1, JsonDeserialize(IOEnv.FRAMES))
Cases == TLCGet(1)
VARIABLES c, f, left, shown
vars == <<c, f, left, shown>>
C == Cases[c]
Required == {C.required[i] : i \in 1 .. Len(C.required)}
Can(m) == left > 0 /\ ~shown /\ \E i \in 1 .. Len(C.moves) : C.moves[i] = m
SwapAt(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]

Init == /\ c \in 1 .. Len(Cases)
        /\ f = [days |-> C.days, cols |-> C.cols] /\ left = C.depth /\ shown = FALSE
MoveRow(i) == /\ Can("row")
              /\ f' = [days |-> SwapAt(f.days, i),
                       cols |-> [k \in 1 .. Len(f.cols) |-> [f.cols[k] EXCEPT !.vals = SwapAt(@, i)]]]
\* one far move, so that the first row can come last within few steps
LastRowFirst == /\ Can("rotate")
                /\ LET rot(s) == <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1)
                   IN f' = [days |-> rot(f.days), cols |-> [k \in 1 .. Len(f.cols) |-> [f.cols[k] EXCEPT !.vals = rot(@)]]]
MoveColumn(k) == Can("column") /\ f' = [f EXCEPT !.cols = SwapAt(@, k)]
Respell(k, s) == /\ Can("respell") /\ f.cols[k].spell # s
                 /\ f' = [f EXCEPT !.cols[k].spell = s]
\* the same numbers, stored in another way
Store(k, s) == /\ Can("store") /\ f.cols[k].kind # s /\ f.cols[k].name \in Required
               /\ f' = [f EXCEPT !.cols[k].kind = s]
Extra(kind) == [name |-> "*" \o kind, spell |-> "lower", kind |-> kind, vals |-> [i \in 1 .. Len(f.days) |-> "0"]]
AddColumn(kind, front) ==
  /\ Can("add") /\ \A i \in 1 .. Len(f.cols) : f.cols[i].kind # kind
  /\ f' = [f EXCEPT !.cols = IF front THEN <<Extra(kind)>> \o @ ELSE Append(@, Extra(kind))]
LeaveOut(k, i) == /\ Can("missing") /\ f.cols[k].name \in Required /\ f.cols[k].vals[i] # "nan"
                  /\ f' = [f EXCEPT !.cols[k].vals[i] = "nan"]
Kinds == {"number", "text", "missing", "dates", "number label", "same label"}
Rearrange ==
  \/ \E i \in 1 .. (Len(f.days) - 1) : MoveRow(i)
  \/ LastRowFirst
  \/ \E k \in 1 .. (Len(f.cols) - 1) : MoveColumn(k)
  \/ \E k \in 1 .. Len(f.cols), s \in {"lower", "upper", "title"} : Respell(k, s)
  \/ \E k \in 1 .. Len(f.cols), s \in NumKinds : Store(k, s)
  \/ \E kind \in Kinds, front \in BOOLEAN : AddColumn(kind, front)
Leave == \E k \in 1 .. Len(f.cols), i \in 1 .. Len(f.days) : LeaveOut(k, i)
Edit == (Rearrange \/ Leave) /\ left' = left - 1 /\ UNCHANGED <<c, shown>>
Show == /\ ~shown /\ shown' = TRUE /\ UNCHANGED <<c, f>> /\ left' = 0
        /\ PrintT("REPLAY " \o ToJson([id |-> C.id, f |-> f, filled |-> Normalise(f, Required, TRUE),
                                       unfilled |-> Normalise(f, Required, FALSE)]))
Next == Edit \/ Show
Spec == Init /\ [][Next]_vars
\* states that differ only in the steps left are the same (first, longest rest kept: one worker)
View == <<c, f, shown>>

InvFill == \A k \in Required : FillMeaning(InDateOrder(f, k), Normalise(f, Required, TRUE)[k])
InvShape == \A k \in Required : Len(Normalise(f, Required, FALSE)[k]) = Len(C.days)
PropReorder == [][Rearrange => \A b \in BOOLEAN : Normalise(f', Required, b) = Normalise(f, Required, b)]_vars
=============================================================================
