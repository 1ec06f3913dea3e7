--------------------------------- MODULE SimArgs ---------------------------------
(***************************************************************************)
(* The arguments of a trading simulation.                                  *)
(*  close : [type, index, frame] with frame as in module Frame (a column   *)
(*          "close" may be there or not, numeric or not)                   *)
(*  cap, factor : [kind, v]; kind "num" with its value v, or another kind  *)
(*  input : Seq(day), the dates of the indicator's input                   *)
(* Faults gives the documented errors that apply; no fault: it starts.     *)
(***************************************************************************)
EXTENDS Frame

CloseFaults(close, input) ==
  IF \/ close.type # "frame" \/ close.index # "dates" \/ Len(close.frame.days) = 0 \/ close.frame.cols = <<>>
     \/ "close" \notin ColNames(close.frame)
  THEN {"NotValidInputDataForSimulation"}
  ELSE IF \/ ColNamed(close.frame, "close").kind \notin NumKinds
          \/ Ascending(close.frame.days) # Ascending(input)
  THEN {"NotValidInputDataForSimulation"} ELSE {}
CapFaults(cap) ==
  CASE cap.kind = "none" -> {}
    [] cap.kind = "num" -> IF RPos(cap.v) THEN {} ELSE {"WrongValueForInputParameter"}
    [] cap.kind = "inf" -> {}
    [] cap.kind = "nan" -> {"WrongValueForInputParameter"}
    [] OTHER -> {"WrongTypeForInputParameter"}
FactorFaults(f) ==
  CASE f.kind = "num" -> IF RLe("1", f.v) THEN {} ELSE {"WrongValueForInputParameter"}
    [] f.kind = "nan" -> {"WrongValueForInputParameter"}
    [] OTHER -> {"WrongTypeForInputParameter"}
Faults(close, input, cap, factor) == CloseFaults(close, input) \cup CapFaults(cap) \cup FactorFaults(factor)
Outcomes(close, input, cap, factor) == LET f == Faults(close, input, cap, factor) IN IF f = {} THEN {"ok"} ELSE f
\* the close prices of the simulated days, in date order
Prices(close) == Normalise(close.frame, {"close"}, TRUE).close
=============================================================================
