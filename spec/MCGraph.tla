--------------------------------- MODULE MCGraph ---------------------------------
(***************************************************************************)
(* Every sequence of up to Depth drawings and other calls on two           *)
(* indicator objects.  Figures are numbered; each is named by what it      *)
(* shows: the graph of an object, or of a simulation of it.  No call but   *)
(* drawing creates figures, and nothing changes figures drawn before.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Objects
VARIABLES figures, log
vars == <<figures, log>>
Shows(k, what) == [of |-> k, what |-> what]
Init == figures = <<>> /\ log = <<>>
Draw(k) == figures' = Append(figures, Shows(k, "graph"))
Simulate(k, cap) == figures' = Append(figures, Shows(k, IF cap THEN "simulation with cap" ELSE "simulation"))
Ask(k) == figures' = figures
Do(what, k) == log' = Append(log, [do |-> what, k |-> k])
Next == /\ Len(log) < Depth
        /\ \E k \in Objects :
             \/ Draw(k) /\ Do("graph", k)
             \/ Simulate(k, FALSE) /\ Do("simulation", k)
             \/ Simulate(k, TRUE) /\ Do("simulation with cap", k)
             \/ Ask(k) /\ Do("signal", k)
        /\ Len(log') = Depth => PrintT("REPLAY " \o ToJson([log |-> log', figures |-> figures']))
Spec == Init /\ [][Next]_vars
Drawings == {"graph", "simulation", "simulation with cap"}
InvCount == Len(figures) = Cardinality({i \in 1 .. Len(log) : log[i].do \in Drawings})
PropKept == [][\A i \in 1 .. Len(figures) : figures'[i] = figures[i]]_vars
\* a figure shows what was asked for last
PropLast == [][log'[Len(log')].do \in Drawings => figures'[Len(figures')] = Shows(log'[Len(log')].k, log'[Len(log')].do)]_vars
=============================================================================
