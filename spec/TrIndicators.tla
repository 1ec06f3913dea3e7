----------------------------- MODULE TrIndicators -----------------------------
(***************************************************************************)
(* Validation of recorded indicator data against the definitions.          *)
(*                                                                         *)
(* A trace is one indicator object of the implementation:                  *)
(*  [id, name, p : parameters, x : raw market data in date order, fill,    *)
(*   names : column names, rows : Seq(values of a day in column order),    *)
(*   index : the index is the ascending input dates (less omitted ones),   *)
(*   pre : Seq([k, rows : rows of the indicator of the first k days])]     *)
(* Optional: frame : the raw input frame (module Frame) instead of x;      *)
(* twins : Seq([kind, a, b]) results that must agree, as text.             *)
(* The data of day l arrive in step l (as if the market closed); every     *)
(* clause violated on the way is collected and reported at the end.        *)
(***************************************************************************)
EXTENDS IndicatorProps, Frame, Json, IOUtils

ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)
VARIABLES t, l, exp, bad, first, done
vars == <<t, l, exp, bad, first, done>>

T == Traces[t]
Needed == {Catalog[T.name].inputs[i] : i \in 1 .. Len(Catalog[T.name].inputs)}
Data == IF "frame" \in DOMAIN T THEN Normalise(T.frame, Needed, T.fill)
        ELSE IF T.fill THEN Filled(T.x) ELSE T.x
Days(tr) == IF "frame" \in DOMAIN tr THEN Len(tr.frame.days) ELSE Len(tr.x[CHOOSE c \in DOMAIN tr.x : TRUE])
Twins == IF "twins" \in DOMAIN T THEN {T.twins[i].kind : i \in {i \in 1 .. Len(T.twins) : T.twins[i].a # T.twins[i].b}} ELSE {}

\* half a unit of the last decimal, plus float error; relative for large values
Half(name) == CASE Decimals(name) = 4 -> "500001/10000000000"
                [] Decimals(name) = 10 -> "500001/10000000000000000"
                [] OTHER -> "0"
\* some definitions lose digits to cancellation in the implementation's floats
Abs(name) == CASE name \in {"MarketFacilitationIndex"} -> "1/100000000000000"
               [] Decimals(name) = -1 -> "1/1000000000000"
               [] OTHER -> "1/10000000"
RoundedOk(name, v) ==
  IF Decimals(name) = -1 \/ ~RIsFin(v) THEN TRUE
  ELSE RNear(v, RRound(v, Decimals(name)), "1/1000000000000000", "1/1000000000000000")
ValueOk(name, lo, hi, v) ==
  IF ~RIsFin(lo) \/ ~RIsFin(hi) THEN v = lo \/ v = hi
  ELSE RIsFin(v) /\ LET slack == RAdd(RAdd(Half(name), Abs(name)), RMul("1/10000000000", RAdd(RAbs(lo), RAbs(hi))))
                    IN RLe(RSub(RMin(lo, hi), slack), v) /\ RLe(v, RAdd(RMax(lo, hi), slack))

Start ==
  LET cols == Columns(T.name, T.p)
      want == Days(T) - Omitted(T.name, T.p)
  IN (IF T.names = cols THEN {} ELSE {"columns"})
     \cup (IF T.index THEN {} ELSE {"index"})
     \cup (IF Len(T.rows) = (IF want < 0 THEN 0 ELSE want) THEN {} ELSE {"rows"})
     \cup Twins

Init == /\ t \in 1 .. Len(Traces)
        /\ l = 0 /\ done = FALSE
        /\ bad = Start
        /\ first = IF bad = {} THEN -1 ELSE 0
        /\ exp = <<>>

RowClauses(i, row) ==
  LET k == Len(exp)
      \* rounding on the way decides whether there is a value
      free(c) == (exp[c].lo[i] = "nan") # (exp[c].hi[i] = "nan")
  IN (IF \A c \in 1 .. k : free(c) \/ ((row[c] = "nan") <=> (exp[c].lo[i] = "nan")) THEN {} ELSE {"missing"})
     \cup (IF \A c \in 1 .. k : free(c) \/ row[c] = "nan" \/ exp[c].lo[i] = "nan"
                                \/ ValueOk(T.name, exp[c].lo[i], exp[c].hi[i], row[c]) THEN {} ELSE {"value"})
     \cup (IF \A c \in 1 .. k : /\ RoundedOk(T.name, row[c])
                               \* not rounded at all
                               /\ Decimals(T.name) = -1 /\ RIsFin(row[c]) /\ RIsFin(exp[c].lo[i])
                                     => ValueOk(T.name, exp[c].lo[i], exp[c].hi[i], row[c])
           THEN {} ELSE {"rounding"})
     \cup (IF T.valid
           THEN (IF RowInRange(T.name, row) THEN {} ELSE {"range"})
                \cup (IF RowOrdered(T.name, row) THEN {} ELSE {"order"})
                \cup (IF RowNearPrice(T.name, Data, i, row, "500001/10000000000") THEN {} ELSE {"price-range"})
           ELSE {})
Same(a, b) == RNear(a, b, "1/1000000000", "1/1000000000000")
PrefixClauses(i, row) ==
  {"repaint" : j \in {j \in 1 .. Len(T.pre) : T.pre[j].k >= i /\ i <= Len(T.pre[j].rows)
                        /\ \E c \in 1 .. Len(row) : ~Same(T.pre[j].rows[i][c], row[c])}}
  \cup {"prefix-rows" : j \in {j \in 1 .. Len(T.pre) :
           i = T.pre[j].k - Omitted(T.name, T.p) /\ Len(T.pre[j].rows) # i}}

\* the definition is evaluated once per trace
Load ==
  /\ ~done /\ bad = {} /\ exp = <<>> /\ l = 0
  /\ exp' = Ti(T.name, T.p, Data)
  /\ UNCHANGED <<t, l, bad, first, done>>
Step ==
  /\ ~done /\ exp # <<>> /\ l < Len(T.rows)
  /\ l' = l + 1
  /\ LET row == T.rows[l + 1]
         b == RowClauses(l + 1, row) \cup (IF T.name = "FibonacciRetracement" THEN {} ELSE PrefixClauses(l + 1, row))
     IN /\ bad' = bad \cup b
        /\ first' = IF first = -1 /\ b # {} THEN l + 1 ELSE first
  /\ UNCHANGED <<t, exp, done>>
Finish ==
  /\ ~done /\ ((exp = <<>> /\ bad # {}) \/ (exp # <<>> /\ l = Len(T.rows)))
  /\ done' = TRUE
  /\ PrintT(ToJson([v |-> IF bad = {} THEN "DONE" ELSE "REJECT", id |-> T.id, at |-> first, clauses |-> bad]))
  /\ UNCHANGED <<t, l, exp, bad, first>>
Next == Load \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
