------------------------------ MODULE TradingSim ------------------------------
(***************************************************************************)
(* The trading simulator as a state machine.                               *)
(*                                                                         *)
(* A simulation processes one day at a time: first every open position     *)
(* that is in profit at the day's close is closed (CloseProfitable), then  *)
(* the day's signal may open one new position (OpenOnSignal), and a row is *)
(* recorded.  The first day only records its signal.                       *)
(*                                                                         *)
(* Prices, exposures and earnings are exact rationals (module Rat).  The   *)
(* state of the simulation is one record, so that the same operators serve *)
(* the exhaustive model (MCTradingSim) and the validation of traces        *)
(* recorded from the implementation (TrTradingSim).                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

Signals == {"buy", "hold", "sell"}

(* st.open   : sequence of open positions [kind, entry]; entry is the       *)
(*             exposure taken when the position was opened                  *)
(* st.row    : the row recorded for the last simulated day                  *)
(* st.days   : number of simulated days                                     *)
InitState == [days |-> 0, open |-> <<>>, row |-> <<>>]

\* cfg = [cap |-> "none" or a number, factor |-> a number]
HasCap(cfg) == cfg.cap # "none"

InProfit(cfg, p, price) ==
  IF p.kind = "long" THEN RLt(p.entry, price)
  ELSE RGt(p.entry, RMul(cfg.factor, price))

\* profit realised by closing position p at the given price
Profit(cfg, p, price) ==
  IF p.kind = "long" THEN RSub(price, p.entry)
  ELSE RSub(RDiv(p.entry, cfg.factor), price)

SumOver(ps, f(_)) == RSum([i \in 1 .. Len(ps) |-> f(ps[i])])
Exposure(ps) == SumOver(ps, LAMBDA p : p.entry)
NumberOf(ps, kind) == Cardinality({i \in 1 .. Len(ps) : ps[i].kind = kind})
PortfolioValue(ps, price) == RMul(price, NumberOf(ps, "long") - NumberOf(ps, "short"))

(* Step 1 of a day: close what is in profit. *)
Closed(cfg, ps, price) == SelectSeq(ps, LAMBDA p : InProfit(cfg, p, price))
Kept(cfg, ps, price)   == SelectSeq(ps, LAMBDA p : ~InProfit(cfg, p, price))

(* Step 2 of a day: the exposure a signal asks for, and whether it is granted. *)
WantedPosition(cfg, signal, price) ==
  IF signal = "buy" THEN [kind |-> "long", entry |-> RAdd(price, 0)]
  ELSE [kind |-> "short", entry |-> RMul(cfg.factor, price)]
Granted(cfg, signal, price, exposure) ==
  /\ signal # "hold"
  /\ HasCap(cfg) => RLe(RAdd(exposure, WantedPosition(cfg, signal, price).entry), cfg.cap)

FirstRow(signal, price) ==
  [signal |-> signal, action |-> "none", stock |-> RAdd(price, 0), exposure |-> "0",
   portfolio |-> "0", earnings |-> "0", balance |-> "0"]

FirstDay(cfg, st, signal, price) ==
  [days |-> 1, open |-> <<>>, row |-> FirstRow(signal, price)]

LaterDay(cfg, st, signal, price) ==
  LET kept    == Kept(cfg, st.open, price)
      closed  == Closed(cfg, st.open, price)
      granted == Granted(cfg, signal, price, Exposure(kept))
      want    == WantedPosition(cfg, signal, price)
      open    == IF granted THEN Append(kept, want) ELSE kept
      earn    == RAdd(st.row.earnings, SumOver(closed, LAMBDA p : Profit(cfg, p, price)))
      value   == PortfolioValue(open, price)
  IN [days |-> st.days + 1,
      open |-> open,
      row  |-> [signal |-> signal,
                action |-> IF granted THEN want.kind ELSE "none",
                stock |-> RAdd(price, 0),
                exposure |-> Exposure(open),
                portfolio |-> value,
                earnings |-> earn,
                balance |-> RAdd(value, earn)]]

Day(cfg, st, signal, price) ==
  IF st.days = 0 THEN FirstDay(cfg, st, signal, price) ELSE LaterDay(cfg, st, signal, price)

(***************************************************************************)
(* Statistics over a sequence of recorded rows and the open positions.     *)
(***************************************************************************)
Count(rows, P(_)) == Cardinality({i \in 1 .. Len(rows) : P(rows[i])})
LastOr0(rows, f(_)) == IF rows = <<>> THEN "0" ELSE f(rows[Len(rows)])
StatCounts(rows) ==
  [number_of_trading_days |-> Len(rows),
   number_of_buy_signals |-> Count(rows, LAMBDA r : r.signal = "buy"),
   number_of_ignored_buy_signals |-> Count(rows, LAMBDA r : r.signal = "buy" /\ r.action = "none"),
   number_of_sell_signals |-> Count(rows, LAMBDA r : r.signal = "sell"),
   number_of_ignored_sell_signals |-> Count(rows, LAMBDA r : r.signal = "sell" /\ r.action = "none")]
\* unrounded; the implementation reports them rounded to two decimals
StatAmounts(rows) ==
  [last_stock_value |-> LastOr0(rows, LAMBDA r : r.stock),
   last_exposure |-> LastOr0(rows, LAMBDA r : r.exposure),
   last_portfolio_value |-> LastOr0(rows, LAMBDA r : r.portfolio),
   last_earnings |-> LastOr0(rows, LAMBDA r : r.earnings),
   final_balance |-> LastOr0(rows, LAMBDA r : r.balance)]

(***************************************************************************)
(* Properties of one state, and of one step.                               *)
(***************************************************************************)
Ledger(cfg, st) ==
  st.days > 0 =>
    /\ st.row.exposure = Exposure(st.open)
    /\ st.row.balance = RAdd(st.row.portfolio, st.row.earnings)
    /\ st.days > 1 => st.row.portfolio = PortfolioValue(st.open, st.row.stock)
CapRespected(cfg, st) == st.days > 0 /\ HasCap(cfg) => RLe(st.row.exposure, cfg.cap)
NothingIgnoredWithoutCap(cfg, st) ==
  st.days > 1 /\ ~HasCap(cfg) => (st.row.action = "none" <=> st.row.signal = "hold")
ActionMatchesSignal(cfg, st) ==
  st.days > 0 => /\ st.row.action = "long" => st.row.signal = "buy"
                 /\ st.row.action = "short" => st.row.signal = "sell"
\* only a position opened today can be in profit at today's close - and none is
NoProfitLeft(cfg, st) ==
  st.days > 0 => \A i \in 1 .. Len(st.open) : ~InProfit(cfg, st.open[i], st.row.stock)
EntriesPositive(cfg, st) == \A i \in 1 .. Len(st.open) : RPos(st.open[i].entry)
\* the last price lies between the prices at which open shorts and open longs were opened
SidesOrdered(cfg, st) ==
  \A i, j \in 1 .. Len(st.open) : (st.open[i].kind = "short" /\ st.open[j].kind = "long")
     => RLe(st.open[i].entry, RMul(cfg.factor, st.open[j].entry))

EarningsNeverFall(st, st2) == st.days > 0 => RLe(st.row.earnings, st2.row.earnings)
AtMostOneOpened(st, st2) ==
  /\ Len(st2.open) <= Len(st.open) + 1
  /\ st2.row.action = "none" => Len(st2.open) <= Len(st.open)
\* so the positions closed on one day are all of one kind
OneSideCloses(cfg, st, st2) ==
  Cardinality({p.kind : p \in {q \in {st.open[i] : i \in 1 .. Len(st.open)} : InProfit(cfg, q, st2.row.stock)}}) <= 1
=============================================================================
