--------------------------------- MODULE Frame ---------------------------------
(***************************************************************************)
(* The input frame of an indicator and its normalisation.                  *)
(*                                                                         *)
(* A frame is [days : Seq(day number), in the order of its rows;           *)
(*             cols : Seq([name, spell, kind, vals])] with                 *)
(*   name  : the column name in lower case ("*..." for columns that no     *)
(*           indicator needs), spell : how it is written,                  *)
(*   kind  : one of NumKinds, the ways to store numbers, or another kind   *)
(*           of content,                                                   *)
(*   vals  : Seq(value) in the order of the rows, "nan" for a missing one. *)
(***************************************************************************)
EXTENDS Series

NumKinds == {"num", "int", "unsigned", "narrow", "wide", "byte", "single", "nullable"}
ColNames(f) == {f.cols[i].name : i \in 1 .. Len(f.cols)}
ColNamed(f, name) == f.cols[CHOOSE i \in 1 .. Len(f.cols) : f.cols[i].name = name]
Ascending(days) == SortSeq(days, <)
RowOf(f, d) == CHOOSE i \in 1 .. Len(f.days) : f.days[i] = d
\* the values of a column in date order
InDateOrder(f, name) ==
  LET c == ColNamed(f, name).vals  o == Ascending(f.days)
  IN TLCEval([i \in 1 .. Len(o) |-> c[RowOf(f, o[i])]])

\* what an indicator sees: the required columns in date order, gaps filled if wanted
Normalise(f, required, fill) ==
  [c \in required |-> IF fill THEN FillGaps(InDateOrder(f, c)) ELSE InDateOrder(f, c)]

(* A filled value is the nearest earlier present value, or, when there is  *)
(* none, the nearest later one; present values are kept; a column without  *)
(* any present value stays missing.  (FillGaps computes this.)             *)
FillMeaning(raw, filled) ==
  /\ Len(filled) = Len(raw)
  /\ \A i \in 1 .. Len(raw) :
       LET before == {j \in 1 .. i : raw[j] # "nan"}
           after  == {j \in i .. Len(raw) : raw[j] # "nan"}
       IN filled[i] = IF before # {} THEN raw[CHOOSE j \in before : \A k \in before : k <= j]
                      ELSE IF after # {} THEN raw[CHOOSE j \in after : \A k \in after : j <= k]
                      ELSE "nan"

(***************************************************************************)
(* Arguments that are no usable input.  given = [type, index, rows,        *)
(* columns : set of lower case names, kinds : name -> kind, flag].         *)
(***************************************************************************)
InputFaults(g, required) ==
  (IF g.flag \in {"True", "False", "omitted"} THEN {} ELSE {"WrongTypeForInputParameter"})
  \cup (IF g.type # "frame" THEN {"WrongTypeForInputParameter"}
        ELSE (IF g.index # "dates" THEN {"TypeError"} ELSE {})
             \cup (IF \/ g.rows = 0 \/ DOMAIN g.kinds = {}
                      \/ \E c \in required : c \notin DOMAIN g.kinds \/ g.kinds[c] \notin NumKinds
                   THEN {"ValueError"} ELSE {}))
InputOutcomes(g, required, enough) ==
  LET f == InputFaults(g, required)
  IN IF f # {} THEN f ELSE IF g.rows < enough THEN {"NotEnoughInputData"} ELSE {"ok"}
=============================================================================
