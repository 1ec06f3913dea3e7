-------------------------------- MODULE MCCtor --------------------------------
(***************************************************************************)
(* Exhaustive model of constructor calls: every indicator, every argument  *)
(* of a critical alphabet at every parameter (Breadth = 1) or at every     *)
(* pair of parameters (Breadth = 2), and every number of rows around the   *)
(* minimum.  A client makes one call after another; a call that is refused *)
(* leaves no object, an accepted one an object with the effective          *)
(* parameters.  Every call is printed with its allowed outcomes, for       *)
(* replay into the implementation.                                         *)
(***************************************************************************)
EXTENDS Ctor, Json
CONSTANTS Mode     \* "args" or "rows"
VARIABLES call, object, phase
vars == <<call, object, phase>>

I(n) == [t |-> "int", v |-> n]
F(x) == [t |-> "float", v |-> x]
S(s) == [t |-> "str", v |-> s]
O(t) == [t |-> t, v |-> ""]
Ints == {I("-14"), I("-1"), I("0"), I("1"), I("2"), I("3"), I("4"), I("5"), I("7"), I("20"), I("50"), I("79"), I("80"), I("81"), I("1000"), I("1000000")}
Floats == {F("-3/2"), F("-1/2"), F("0"), F("1/1000"), F("1/2"), F("999/1000"), F("1"), F("3/2"), F("2"), F("5"), F("nan")}
Strs == {S(""), S("5"), S("simple"), S("exponential"), S("LONG"), S("SHORT"), S("long"), S("Simple"), S("EXPONENTIAL"),
         S("time_series"), S("triangular"), S("variable"), S("Short"), S("weighted"), S("simple ")}
Others == {O("none"), O("list"), O("dict"), O("empty list"), O("tuple"), O("class"), O("bytes"), O("complex")}
Alphabet == Ints \cup Floats \cup Strs \cup Others
\* for combinations of several parameters
Few(q) == CASE q.kind \in {"int"} -> {Omit, I("0"), I("1"), I("2"), I("3"), I("5"), F("3"), O("none")}
            [] q.kind = "oneof" -> {Omit, I("1"), I("2"), I("3"), S("1")}
            [] q.kind = "str" -> {Omit, S("x"), I("1")} \cup {S(s) : s \in q.choices}
            [] OTHER -> {Omit, I("-1"), I("0"), I("1"), F("-1/4"), F("1/4"), F("5/2"), F("0"), S("1"), O("none")}

AllOmitted(name) == [i \in 1 .. Len(Params(name)) |-> Omit]
OneArg(name) == {[AllOmitted(name) EXCEPT ![i] = a] : i \in 1 .. Len(Params(name)), a \in Alphabet}
TwoArgs(name) == UNION {{[AllOmitted(name) EXCEPT ![i] = a, ![j] = b] : a \in Few(Params(name)[i]), b \in Few(Params(name)[j])}
                        : i \in 1 .. Len(Params(name)), j \in 1 .. Len(Params(name))}
ArgCalls == UNION {{[name |-> n, args |-> a, rows |-> 80] : a \in OneArg(n) \cup TwoArgs(n) \cup {AllOmitted(n)}} : n \in Names}

\* admissible argument lists for the sizes
Sizes(q) == CASE q.kind = "int" -> {Omit, I("1"), I("2"), I("3"), I("6"), I("11"), I("37")}
              [] q.kind = "oneof" -> {Omit, I("1"), I("3")}
              [] q.kind = "str" -> {S(s) : s \in q.choices}
              [] OTHER -> {Omit}
Lists(name) == {a \in [1 .. Len(Params(name)) -> UNION ({Sizes(Params(name)[i]) : i \in 1 .. Len(Params(name))} \cup {{Omit}})]
                  : /\ \A i \in 1 .. Len(a) : a[i] \in Sizes(Params(name)[i])
                    /\ ArgFaults(name, a) = {} /\ PairOk(name, Effective(name, a))}
RowsAround(n) == {1, n - 1, n, n + 1, n + 2} \ {0, -1}
RowCalls == UNION {UNION {{[name |-> n, args |-> a, rows |-> r] : r \in RowsAround(MinRows(n, Effective(n, a)))}
                          : a \in Lists(n)} : n \in Names}
ASSUME TLCSet(1, IF Mode = "args" THEN ArgCalls ELSE RowCalls)
Calls == TLCGet(1)

NoCall == [name |-> "", args |-> <<>>, rows |-> 0]
Init == call \in Calls /\ object = <<>> /\ phase = "called"
Accept == /\ phase = "called" /\ Outcomes(call.name, call.args, call.rows) = {"ok"}
          /\ object' = <<Effective(call.name, call.args)>> /\ phase' = "done"
Refuse == /\ phase = "called" /\ Outcomes(call.name, call.args, call.rows) # {"ok"}
          /\ object' = <<>> /\ phase' = "done"
Next == /\ Accept \/ Refuse
        /\ UNCHANGED call
        /\ PrintT("REPLAY " \o ToJson([name |-> call.name, args |-> call.args, rows |-> call.rows,
                     outcomes |-> Outcomes(call.name, call.args, call.rows),
                     p |-> IF object' = <<>> THEN [none |-> 0] ELSE object'[1] @@ [none |-> 0]]))
Spec == Init /\ [][Next]_vars

InvDefaults == Outcomes(call.name, AllOmitted(call.name), MinRows(call.name, Defaults(call.name))) = {"ok"}
InvOutcome == LET o == Outcomes(call.name, call.args, call.rows)
              IN o # {} /\ o \subseteq {"ok", "type", "value", "enough"} /\ ("ok" \in o => o = {"ok"})
InvObject == object # <<>> => /\ PairOk(call.name, object[1]) /\ call.rows >= MinRows(call.name, object[1])
                              /\ MinRows(call.name, object[1]) >= 1
\* more rows never turn acceptance into refusal
InvMonotone == Outcomes(call.name, call.args, call.rows) = {"ok"} => Outcomes(call.name, call.args, call.rows + 1) = {"ok"}
\* only "enough" depends on the number of rows
InvRows == LET o == Outcomes(call.name, call.args, call.rows)
           IN o \cap {"type", "value"} # {} => Outcomes(call.name, call.args, 1) = o
=============================================================================
