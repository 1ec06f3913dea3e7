--------------------------------- MODULE Ctor ---------------------------------
(***************************************************************************)
(* Construction of an indicator: which arguments are accepted, which error *)
(* is raised otherwise, and which parameters an accepted call means.       *)
(*                                                                         *)
(* An argument is [t |-> type, v |-> value]: type is "int", "float", "str",*)
(* "none", "list", "dict" or "omitted"; v is a rational, a string or "".   *)
(* A call is [name, args : one argument per documented parameter, rows].   *)
(* Outcomes: "ok", "type" (WrongTypeForInputParameter), "value"            *)
(* (WrongValueForInputParameter), "enough" (NotEnoughInputData).           *)
(***************************************************************************)
EXTENDS Catalog

Omit == [t |-> "omitted", v |-> ""]
Num(a) == a.t \in {"int", "float"}
\* verdict on one argument for one documented parameter
ArgOutcome(q, a) ==
  IF a.t = "omitted" THEN "ok"
  ELSE CASE q.kind = "int" -> IF a.t # "int" THEN "type" ELSE IF RGe(a.v, q.min) THEN "ok" ELSE "value"
         [] q.kind = "oneof" -> IF a.t # "int" THEN "type"
                                ELSE IF \E c \in q.choices : REq(a.v, c) THEN "ok" ELSE "value"
         [] q.kind = "positive" -> IF ~Num(a) THEN "type" ELSE IF RGt(a.v, 0) THEN "ok" ELSE "value"
         [] q.kind = "fraction" -> IF a.t # "float" THEN "type"
                                   ELSE IF RGt(a.v, 0) /\ RLt(a.v, 1) THEN "ok" ELSE "value"
         [] q.kind = "number" -> IF ~Num(a) THEN "type" ELSE IF RIsNan(a.v) THEN "value" ELSE "ok"
         [] q.kind = "str" -> IF a.t # "str" THEN "type" ELSE IF a.v \in q.choices THEN "ok" ELSE "value"

Params(name) == Catalog[name].params
ArgFaults(name, args) == {ArgOutcome(Params(name)[i], args[i]) : i \in 1 .. Len(args)} \ {"ok"}
\* the value a parameter has in an accepted call
Meaning(q, a) ==
  IF a.t = "omitted" THEN (IF q.kind \in {"int", "oneof"} THEN RNum(q.default) ELSE q.default)
  ELSE IF q.kind \in {"int", "oneof"} THEN RNum(a.v) ELSE a.v
Effective(name, args) ==
  [k \in ParamNames(name) |->
     LET i == CHOOSE i \in 1 .. Len(args) : Params(name)[i].name = k IN Meaning(Params(name)[i], args[i])]
Defaults(name) == Effective(name, [i \in 1 .. Len(Params(name)) |-> Omit])

\* the allowed outcomes of a call (which of several faults is reported first is not documented)
Outcomes(name, args, rows) ==
  LET f == ArgFaults(name, args)
  IN IF f # {} THEN f
     ELSE LET p == Effective(name, args)
          IN IF ~PairOk(name, p) THEN {"value"}
             ELSE IF rows < MinRows(name, p) THEN {"enough"} ELSE {"ok"}
=============================================================================
