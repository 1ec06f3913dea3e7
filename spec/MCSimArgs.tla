-------------------------------- MODULE MCSimArgs --------------------------------
(***************************************************************************)
(* Every simulation argument of a finite alphabet.  Mode "days": close     *)
(* frames with every sequence of distinct days and every pattern of        *)
(* missing values; Mode "args": every kind of close frame with every kind  *)
(* of cap and factor.  Printed with the allowed outcomes and the prices    *)
(* of the simulated days.                                                  *)
(***************************************************************************)
EXTENDS SimArgs, FiniteSets, Json
CONSTANTS Mode, MaxDays
VARIABLES call, done
vars == <<call, done>>
Input == <<2, 4, 1, 3>>
PriceOf == [d \in 0 .. 6 |-> <<"7", "5", "9", "8", "14", "11", "6">>[d + 1]]
Num(v) == [kind |-> "num", v |-> v]
Is(k) == [kind |-> k, v |-> "0"]
NoCap == Is("none")
Half == Num("3/2")
Column(days, holes, spell, kind) == [name |-> "close", spell |-> spell, kind |-> kind,
  vals |-> [i \in 1 .. Len(days) |-> IF days[i] \in holes THEN "nan" ELSE PriceOf[days[i]]]]
Extra(kind, days) == [name |-> "*" \o kind, spell |-> "lower", kind |-> kind, vals |-> [i \in 1 .. Len(days) |-> "1"]]
FrameOf(days, holes, spell, kind, extras) ==
  [days |-> days, cols |-> (IF spell = "absent" THEN <<>> ELSE <<Column(days, holes, spell, kind)>>) \o extras]
Close(t, i, f) == [type |-> t, index |-> i, frame |-> f]
Distinct(S, k) == {s \in [1 .. k -> S] : \A i, j \in 1 .. k : i # j => s[i] # s[j]}
DayLists == {<<>>} \cup UNION {Distinct(0 .. MaxDays, k) : k \in 1 .. 4} \cup Distinct(1 .. 5, 5)
                   \cup {<<1, 2, 3, 3>>, <<1, 1, 2, 3, 4>>, <<4, 3, 2, 1, 1>>, <<2, 2, 2, 2>>, <<1, 2, 3, 4, 4>>}
DayCalls ==
  {[close |-> Close("frame", "dates", FrameOf(d, {}, s, "num", <<>>)), cap |-> NoCap, factor |-> Half] : d \in DayLists, s \in {"lower", "title"}}
  \cup {[close |-> Close("frame", "dates", FrameOf(d, h, "lower", k, <<>>)), cap |-> NoCap, factor |-> Half]
          : d \in {<<1, 2, 3, 4>>, <<3, 1, 4, 2>>}, h \in SUBSET (1 .. 4), k \in NumKinds}
  \cup {[close |-> Close("frame", "dates", FrameOf(d, h, "lower", "num", e)), cap |-> NoCap, factor |-> Half]
          : d \in Distinct(1 .. 4, 4), h \in SUBSET (1 .. 4), e \in {<<>>, <<Extra("text", <<1, 2, 3, 4>>)>>}}
Caps == {NoCap, Num("0"), Num("-1"), Num("-1/1000"), Num("1/1000"), Num("1"), Num("5"), Num("1000000"), Is("zero float"), Is("nan"), Is("inf"), Is("minus inf"),
         Is("text"), Is("number text"), Is("list"), Is("dict"), Is("class"), Is("frame"), Is("empty text"), Is("empty list"),
         Is("empty dict"), Is("tuple"), Is("complex"), Is("bytes"), Num("1/1000000000")}
Factors == {Num("1"), Half, Num("2"), Num("100"), Num("999999/1000000"), Num("1000001/1000000"), Num("0"), Num("-3/2"), Num("1/2"),
            Is("nan"), Is("minus inf"), Is("none"), Is("text"), Is("number text"), Is("list"), Is("class"), Is("empty text"), Is("empty list"),
            Is("empty dict"), Is("tuple"), Is("complex"), Is("bytes"), Num("999999999/1000000000"), Num("199/200"), Num("39/40")}
D == <<3, 1, 4, 2>>
Good == Close("frame", "dates", FrameOf(D, {}, "lower", "num", <<>>))
Closes ==
  {Good} \cup {Close(t, "dates", FrameOf(D, {}, "lower", "num", <<>>)) : t \in {"none", "list", "series", "array", "dict", "text", "class", "empty list", "empty text", "indexed series"}}
  \cup {Close("frame", i, FrameOf(D, {}, "lower", "num", <<>>)) : i \in {"range", "strings", "integers", "periods", "date objects"}}
  \cup {Close("frame", "dates", FrameOf(D, {}, s, k, e)) : s \in {"lower", "upper", "title", "absent"},
          k \in NumKinds \cup {"text", "mixed", "object", "dates", "category"},
          e \in {<<>>, <<Extra("text", D)>>, <<Extra("number", D)>>, <<Extra("missing", D), Extra("number label", D)>>}}
  \cup {Close("frame", "dates", FrameOf(d, {}, "lower", "num", <<>>)) : d \in {<<>>, <<1, 2, 3>>, <<1, 2, 3, 4, 5>>, <<2, 3, 4, 5>>}}
\* values with a sign of their own
Norm(c) == CASE c.kind = "zero float" -> Num("0") [] c.kind = "minus inf" -> Num("-1") [] OTHER -> c
ArgCalls ==
  {[close |-> cl, cap |-> NoCap, factor |-> Half] : cl \in Closes}
  \cup {[close |-> Good, cap |-> c, factor |-> f] : c \in Caps, f \in Factors}
  \cup {[close |-> cl, cap |-> c, factor |-> f] : cl \in {Close("frame", "dates", FrameOf(<<1, 2, 3>>, {}, "lower", "num", <<>>)),
            Close("none", "dates", FrameOf(D, {}, "lower", "num", <<>>)), Close("frame", "dates", FrameOf(D, {}, "upper", "text", <<>>))},
          c \in {NoCap, Num("0"), Is("text")}, f \in {Half, Num("1/2"), Is("none")}}
ASSUME TLCSet(1, TLCEval(IF Mode = "days" THEN DayCalls ELSE ArgCalls))
Init == call \in TLCGet(1) /\ done = FALSE
Out(c) == Outcomes(c.close, Input, Norm(c.cap), Norm(c.factor))
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED call
        /\ PrintT("REPLAY " \o ToJson([call |-> call, outcomes |-> Out(call), input |-> Input,
                     prices |-> IF Out(call) = {"ok"} THEN Prices(call.close) ELSE <<>>]))
Spec == Init /\ [][Next]_vars
InvOne == Out(call) # {} /\ ("ok" \in Out(call) => Out(call) = {"ok"})
\* prices of an accepted call: one per day, and filled as module Frame says
InvPrices == Out(call) = {"ok"} =>
  /\ Len(Prices(call.close)) = Len(Input)
  /\ FillMeaning(InDateOrder(call.close.frame, "close"), Prices(call.close))
=============================================================================
