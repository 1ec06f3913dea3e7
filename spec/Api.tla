---------------------------------- MODULE Api ----------------------------------
(***************************************************************************)
(* The library as its callers see it: frames that belong to the caller,    *)
(* indicator objects that are constructed from them, and calls.            *)
(*                                                                         *)
(* A frame is represented by its version number, which changes when - and  *)
(* only when - the caller modifies the frame.  An object is what its       *)
(* constructor was given: [case, fv], the indicator with its parameters    *)
(* and the version of the input frame at that moment.  What a call returns *)
(* is named by a token [op, case, fv, gv] (gv: the version of the close    *)
(* prices given to a simulation): equal tokens mean equal results, and the *)
(* result of a token is what a fresh object in a fresh process returns.    *)
(* So in this specification a result depends on nothing but the arguments, *)
(* and no call has an effect on frames or objects.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoObject == [case |-> "none", fv |-> -1]
Queries == {"data", "value", "value of a day", "value of no day", "signal", "graph"}
Simulations == {"sim", "sim with cap", "sim on input frame"}
RefusedSims == {"sim refused value", "sim refused type", "sim refused frame"}
\* a simulation that the caller stops (Ctrl-C) after some or most of the days: no result and no effect
InterruptedSims == {"sim interrupted", "sim interrupted late"}
\* observations whose result names depend on the close prices too
Token(op, o, frames) ==
  [op |-> op, case |-> o.case, fv |-> o.fv,
   gv |-> IF op = "sim on input frame" THEN frames.F ELSE IF op \in Simulations THEN frames.G ELSE -1]

(* The effect of a step on the world [frames |-> [F, G], objects].         *)
Construct(w, k, case) == [w EXCEPT !.objects[k] = [case |-> case, fv |-> w.frames.F]]
Refused(w) == w                      \* a refused construction leaves no object and changes none
Called(w, k, op) == w                \* no call changes objects or frames
Modify(w, f) == [w EXCEPT !.frames[f] = @ + 1]     \* the caller changes its own frame
ModifyResults(w) == w                \* the caller changes frames that calls returned to it: they are its own

\* objects change only when they are constructed, frames only when the caller changes them
ObjectsOwn(w, w2, constructed) == \A k \in DOMAIN w.objects : k \notin constructed => w2.objects[k] = w.objects[k]
FramesOwn(w, w2, modified) == \A f \in DOMAIN w.frames : f \notin modified => w2.frames[f] = w.frames[f]
=============================================================================
