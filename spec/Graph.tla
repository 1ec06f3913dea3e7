---------------------------------- MODULE Graph ----------------------------------
(***************************************************************************)
(* Figures.  A figure is [title, ylabel, xlabel, panels]; a panel is a     *)
(* sequence of lines [label, x, y], x and y sequences of the same length   *)
(* (x: instants or numbers, y: values, "nan" where nothing is drawn).      *)
(*                                                                         *)
(* World: the figures drawn so far.  Drawing appends a figure and leaves   *)
(* the older ones alone.                                                   *)
(***************************************************************************)
EXTENDS Indicators, Catalog

Line(label, x, y) == [label |-> label, x |-> x, y |-> y]
(* The columns of the input that an indicator plots: prices, or an average *)
(* of the close where the indicator's signal uses one.                     *)
Plotted(name, p, data, c) ==
  CASE c = "9_ema" -> Ema(data.close, 9)
    [] c = "close_ema" -> Ema(data.close, p.period)
    [] OTHER -> data[c]
PadTo(s, n) == [i \in 1 .. n |-> IF i <= Len(s) THEN s[i] ELSE "nan"]
(* data: the input as the indicator sees it, at the instants days;         *)
(* names, cols: the indicator's columns, which end at day Len(cols[1])     *)
GraphOf(name, p, days, data, names, cols) ==
  LET c == Catalog[name]
      prices == [i \in 1 .. Len(c.plotted) |-> Line(c.plotted[i], days, Plotted(name, p, data, c.plotted[i]))]
      own(n) == [i \in 1 .. Len(names) |-> Line(names[i], SubSeq(days, 1, n), PadTo(cols[i], n))]
      rows == Len(cols[1])
  IN [title |-> c.title, ylabel |-> c.label, xlabel |-> "Date",
      panels |-> IF c.panels = 1 THEN <<prices \o own(Len(days))>> ELSE <<prices, own(rows)>>]

(* The graph of a simulation with the given columns.                       *)
SimulationGraph(class, stock, exposure, balance) ==
  LET x == [i \in 1 .. Len(stock) |-> i]
  IN [title |-> "Trading Simulation for " \o class, ylabel |-> "Balance | Exposure | Price", xlabel |-> "Transactions",
      panels |-> <<<<Line("close_price", x, stock)>>, <<Line("exposure", x, exposure)>>, <<Line("balance", x, balance)>>>>]

Near(a, b) == a = b \/ (RIsFin(a) /\ RIsFin(b) /\ RNear(a, b, "1/1000000000000", "1/1000000000000"))
SameLine(a, b) == a.label = b.label /\ a.x = b.x /\ Len(a.y) = Len(b.y) /\ \A i \in 1 .. Len(a.y) : Near(a.y[i], b.y[i])
(* What differs between a drawn figure and the expected one.               *)
Differences(got, want) ==
  {k \in {"title"} : got.title # want.title} \cup {k \in {"label"} : got.ylabel # want.ylabel}
  \cup {k \in {"xlabel"} : got.xlabel # want.xlabel}
  \cup (IF Len(got.panels) # Len(want.panels) THEN {"panels"}
        ELSE UNION {IF Len(got.panels[i]) # Len(want.panels[i])
                       \/ \E j \in 1 .. Len(got.panels[i]) : got.panels[i][j].label # want.panels[i][j].label THEN {"lines"}
                    ELSE IF \E j \in 1 .. Len(got.panels[i]) : got.panels[i][j].x # want.panels[i][j].x THEN {"dates"}
                    ELSE IF \E j \in 1 .. Len(got.panels[i]) : ~SameLine(got.panels[i][j], want.panels[i][j]) THEN {"values"}
                    ELSE {} : i \in 1 .. Len(want.panels)})
=============================================================================
