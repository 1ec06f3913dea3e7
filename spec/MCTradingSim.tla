----------------------------- MODULE MCTradingSim -----------------------------
(* Exhaustive model of the simulator: every history of up to MaxDays days    *)
(* over the given prices and signals, for every cap and short factor.        *)
(* With Emit = TRUE the complete histories are printed, for replay into the  *)
(* implementation (harness/props_sim.py).                                    *)
EXTENDS TradingSim, Json
CONSTANTS Prices, Caps, Factors, MaxDays, Emit, KeepHistory
VARIABLES cfg, st, hist
vars == <<cfg, st, hist>>

Init == /\ cfg \in [cap : Caps, factor : Factors]
        /\ st = InitState
        /\ hist = <<>>
Next == /\ st.days < MaxDays
        /\ \E signal \in Signals, price \in Prices :
             /\ st' = Day(cfg, st, signal, price)
             /\ hist' = IF KeepHistory
                        THEN Append(hist, [row |-> st'.row, longs |-> NumberOf(st'.open, "long"),
                                           shorts |-> NumberOf(st'.open, "short")])
                        ELSE hist
        /\ UNCHANGED cfg
        /\ (Emit /\ st'.days = MaxDays)
             => PrintT("REPLAY " \o ToJson([cap |-> cfg.cap, factor |-> cfg.factor, days |-> hist']))
Spec == Init /\ [][Next]_vars

TypeOK == st.days \in 0 .. MaxDays
InvLedger  == Ledger(cfg, st)
InvCap     == CapRespected(cfg, st)
InvIgnored == NothingIgnoredWithoutCap(cfg, st)
InvAction  == ActionMatchesSignal(cfg, st)
InvProfit  == NoProfitLeft(cfg, st)
InvEntries == EntriesPositive(cfg, st)
InvSides   == SidesOrdered(cfg, st)
InvStats   == KeepHistory =>
  LET rows == [i \in 1 .. Len(hist) |-> hist[i].row]
      c == StatCounts(rows)
  IN /\ c.number_of_ignored_buy_signals <= c.number_of_buy_signals
     /\ c.number_of_buy_signals + c.number_of_sell_signals <= c.number_of_trading_days
     /\ c.number_of_trading_days = st.days
     /\ (~HasCap(cfg) /\ st.days > 1) =>
          c.number_of_ignored_buy_signals + c.number_of_ignored_sell_signals
            = (IF rows[1].signal = "hold" THEN 0 ELSE 1)
PropMonotone == [][EarningsNeverFall(st, st') /\ AtMostOneOpened(st, st') /\ OneSideCloses(cfg, st, st')]_vars
=============================================================================
