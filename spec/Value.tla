---------------------------------- MODULE Value ----------------------------------
(***************************************************************************)
(* Looking up indicator values by date.                                    *)
(* Instants are minutes since some origin; an indicator has rows at the    *)
(* instants `at` (ascending).  A query is [kind, at]:                      *)
(*   latest : no date given;   date : the instant at;   nodate : a value   *)
(*   that is no date.  The answer is the number of a row, or 0 for None.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Answer(at, q) ==
  CASE q.kind = "latest" -> Len(at)            \* no rows: None
    [] q.kind = "date" -> IF \E i \in 1 .. Len(at) : at[i] = q.at THEN CHOOSE i \in 1 .. Len(at) : at[i] = q.at ELSE 0
    [] OTHER -> 0
\* rows of an indicator of `input` instants (any order) that omits its last `omitted` days
RowsAt(input, omitted) ==
  LET o == SortSeq(input, <)  k == Len(o) - omitted IN SubSeq(o, 1, IF k < 0 THEN 0 ELSE k)
=============================================================================
