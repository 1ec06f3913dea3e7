-------------------------------- MODULE MCInput --------------------------------
(***************************************************************************)
(* Exhaustive model of constructor calls with usable and unusable input    *)
(* data: every indicator, every kind of input, index, number of rows and   *)
(* flag, every way a required column can be missing or of another type,    *)
(* and further columns of every kind.  Printed with the allowed outcomes.  *)
(***************************************************************************)
EXTENDS Frame, Ctor, Json
VARIABLES call, phase
vars == <<call, phase>>

Required(n) == {Catalog[n].inputs[i] : i \in 1 .. Len(Catalog[n].inputs)}
Enough(n) == MinRows(n, Defaults(n))
Good(n) == [name |-> n, type |-> "frame", index |-> "dates", rows |-> Enough(n) + 1, flag |-> "omitted",
            kinds |-> [c \in Required(n) |-> "num"]]
Types == {"none", "list", "dict", "series", "array", "text", "class", "empty list", "empty text", "empty dict", "zero", "empty series"}
Indexes == {"range", "strings", "integers", "periods", "date objects", "durations"}
Flags == {"True", "False", "none", "one", "zero", "text", "float", "list", "empty text", "empty list", "zero float", "minus one", "nan"}
NotNumeric == {"text", "object", "mixed", "dates", "category"}
\* names that indicators do not need, some of them names the implementation uses for its own columns
ExtraNames == {"adj close", "symbol", "sd", "9_ema", "close_ema", "lowest_low", "x", "date", "open interest"}
ExtraKinds == NotNumeric \cup {"num", "missing"}
Without(f, c) == [k \in DOMAIN f \ {c} |-> f[k]]

Calls(n) ==
  LET g == Good(n)
  IN {g}
     \cup {[g EXCEPT !.type = t] : t \in Types}
     \cup {[g EXCEPT !.index = i] : i \in Indexes}
     \cup {[g EXCEPT !.flag = f] : f \in Flags}
     \cup {[g EXCEPT !.rows = r] : r \in {0, 1, Enough(n)} \ {Enough(n) - 1}}
     \cup {[g EXCEPT !.rows = 0, !.index = i] : i \in Indexes \cup {"dates"}}
     \cup {[g EXCEPT !.kinds = <<>>]}
     \cup {[g EXCEPT !.kinds = Without(g.kinds, c)] : c \in Required(n)}
     \cup {[g EXCEPT !.kinds = Without(g.kinds, c) @@ ("x" \o c :> "num")] : c \in Required(n)}
     \cup {[g EXCEPT !.kinds = [g.kinds EXCEPT ![c] = k]] : c \in Required(n), k \in NotNumeric}
     \cup {[g EXCEPT !.kinds = [g.kinds EXCEPT ![c] = k]] : c \in Required(n), k \in NumKinds}
     \cup {[g EXCEPT !.kinds = [g.kinds EXCEPT ![c] = k], !.flag = f] : c \in Required(n), k \in {"text", "object"}, f \in {"False", "one"}}
     \cup {[g EXCEPT !.kinds = g.kinds @@ (c :> k)] : c \in ExtraNames, k \in ExtraKinds}
     \cup {[g EXCEPT !.kinds = g.kinds @@ (c :> k) @@ (d :> "text")] : c \in {"symbol"}, d \in {"sd", "note"}, k \in ExtraKinds}
     \cup {[g EXCEPT !.kinds = [c \in {"open", "high", "low", "close", "volume"} |-> IF c \in Required(n) THEN "num" ELSE k]]
           : k \in ExtraKinds}
     \cup {[g EXCEPT !.index = i, !.kinds = Without(g.kinds, Catalog[n].inputs[1])] : i \in {"range", "strings"}}
     \cup {[g EXCEPT !.type = t, !.flag = "none"] : t \in {"none", "list"}}

ASSUME TLCSet(1, UNION {Calls(n) : n \in Names})
Init == call \in TLCGet(1) /\ phase = "called"
Out(c) == InputOutcomes([type |-> c.type, index |-> c.index, rows |-> c.rows, kinds |-> c.kinds, flag |-> c.flag],
                        Required(c.name), Enough(c.name))
Next == /\ phase = "called" /\ phase' = "done" /\ UNCHANGED call
        /\ PrintT("REPLAY " \o ToJson([name |-> call.name, type |-> call.type, index |-> call.index, rows |-> call.rows,
                     kinds |-> IF DOMAIN call.kinds = {} THEN [none |-> "none"] ELSE call.kinds,
                     flag |-> call.flag, outcomes |-> Out(call)]))
Spec == Init /\ [][Next]_vars
InvOutcome == Out(call) # {} /\ ("ok" \in Out(call) => Out(call) = {"ok"})
\* further columns never matter
InvExtra == Out([call EXCEPT !.kinds = [k \in (DOMAIN call.kinds \cap Required(call.name)) |-> call.kinds[k]]])
            = Out(call) \/ (DOMAIN call.kinds \cap Required(call.name) = {})
=============================================================================
