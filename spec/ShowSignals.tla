------------------------------ MODULE ShowSignals ------------------------------
(* Prints which indicator has which kind of signal rule, for the harness. *)
EXTENDS Signals, Catalog, Json
ASSUME /\ CrossingNames \cup LatestNames \cup PatternNames = DOMAIN Catalog
       /\ CrossingNames \cap LatestNames = {} /\ CrossingNames \cap PatternNames = {} /\ LatestNames \cap PatternNames = {}
ASSUME PrintT("FAMILIES " \o ToJson([cross |-> SetToSeq(CrossingNames), latest |-> SetToSeq(LatestNames), pattern |-> SetToSeq(PatternNames)]))
================================================================================
