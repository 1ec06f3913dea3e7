--------------------------------- MODULE MCApi ---------------------------------
(***************************************************************************)
(* Every sequence of up to Depth steps of a caller with two objects.  The  *)
(* first object is constructed at the start; each case is a different      *)
(* relation of the second one to it.  Complete sequences are printed with  *)
(* the token of every result, followed by the observation of everything    *)
(* observable, for replay into the implementation.                         *)
(***************************************************************************)
EXTENDS Api, Json
CONSTANTS Depth, Ops, Cases, FinalOps, RefusedKinds, Frames
VARIABLES w, h, log
vars == <<w, h, log>>
Step(what, k, tok) == Append(log, [do |-> what, k |-> k, tok |-> tok, frames |-> w'.frames])

Init == /\ w = [frames |-> [F |-> 0, G |-> 0],
                objects |-> [a |-> [case |-> "first", fv |-> 0], b |-> NoObject]]
        /\ h = 0 /\ log = <<>>
Live == {k \in {"a", "b"} : w.objects[k] # NoObject}
Query(k, op) == /\ w' = Called(w, k, op) /\ log' = Step(op, k, <<Token(op, w.objects[k], w.frames)>>)
New(case) == /\ w' = Construct(w, "b", case) /\ log' = Step("new", "b", <<[op |-> "new", case |-> case, fv |-> w.frames.F, gv |-> -1]>>)
Refuse(kind) == w' = Refused(w) /\ log' = Step("refused " \o kind, "b", <<>>)
Change(f) == w' = Modify(w, f) /\ log' = Step("modify " \o f, "b", <<>>)
ChangeResults == w' = ModifyResults(w) /\ log' = Step("modify results", "b", <<>>)
Next == /\ h < Depth /\ h' = h + 1
        /\ \/ \E k \in Live, op \in Ops : Query(k, op)
           \/ \E case \in Cases : New(case)
           \/ \E kind \in RefusedKinds : Refuse(kind)
           \/ \E f \in Frames : Change(f)
           \/ Frames # {} /\ ChangeResults
        /\ h' = Depth => PrintT("REPLAY " \o ToJson([steps |-> log',
              final |-> [k \in {x \in {"a", "b"} : w'.objects[x] # NoObject} |->
                           [op \in FinalOps |-> Token(op, w'.objects[k], w'.frames)]]]))
Spec == Init /\ [][Next]_vars
TypeOK == \A f \in DOMAIN w.frames : w.frames[f] \in 0 .. Depth
PropOwn == [][\A x \in {log'[Len(log')]} :
                /\ ObjectsOwn(w, w', IF x.do = "new" THEN {x.k} ELSE {})
                /\ FramesOwn(w, w', {f \in {"F", "G"} : x.do = "modify " \o f})]_vars
\* the same call with the same arguments has the same result, whatever happened in between
InvDetermined == \A i, j \in 1 .. Len(log) :
  (log[i].tok # <<>> /\ log[j].tok # <<>> /\ log[i].do = log[j].do
   /\ log[i].tok[1].case = log[j].tok[1].case /\ log[i].tok[1].fv = log[j].tok[1].fv /\ log[i].tok[1].gv = log[j].tok[1].gv)
  => log[i].tok = log[j].tok
=============================================================================
