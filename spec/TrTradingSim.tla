----------------------------- MODULE TrTradingSim -----------------------------
(***************************************************************************)
(* Validation of recorded simulations against TradingSim.                  *)
(*                                                                         *)
(* A trace is one simulation run by the implementation:                    *)
(*   [id, cap, factor, days : Seq([signal, price, row, longs, shorts]),    *)
(*    stats : the statistics after each recorded day (or <<>>) ]           *)
(* row is the recorded row of the day with amounts as exact rationals.     *)
(* longs/shorts are the numbers of open positions after the day, or -1 if  *)
(* not observed.  stats are observed after the day, or <<>> if not.        *)
(*                                                                         *)
(* Every event is a Day step of the specification; the clauses that the    *)
(* observed row violates are printed, and a violating trace is not         *)
(* followed further.  Every trace ends with a DONE or REJECT line.         *)
(***************************************************************************)
EXTENDS TradingSim, Json, IOUtils

ASSUME TLCSet(1, JsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)

VARIABLES t, l, st, rows, phase
vars == <<t, l, st, rows, phase>>

Cfg == [cap |-> Traces[t].cap, factor |-> Traces[t].factor]
Near(a, b) == RNear(a, b, "1/1000000000", "1/1000000000000")
\* a is b rounded to two decimals
Rounded2(a, b) == /\ RNear(a, b, "50001/10000000", "1/1000000000000")
                  /\ RNear(a, RRound(a, 2), "1/10000000000", "1/1000000000000")

RowClauses(exp, obs) ==
  {c \in {"signal", "action", "stock", "exposure", "portfolio", "earnings", "balance"} :
     CASE c = "signal" -> obs.signal # exp.signal
       [] c = "action" -> obs.action # exp.action
       [] c = "stock" -> ~Near(obs.stock, exp.stock)
       [] c = "exposure" -> ~Near(obs.exposure, exp.exposure)
       [] c = "portfolio" -> ~Near(obs.portfolio, exp.portfolio)
       [] c = "earnings" -> ~Near(obs.earnings, exp.earnings)
       [] c = "balance" -> ~Near(obs.balance, exp.balance)}
\* identities that must hold among the observed amounts themselves
SelfClauses(prev, obs, first) ==
  (IF Near(obs.balance, RAdd(obs.portfolio, obs.earnings)) THEN {} ELSE {"self-balance"})
  \cup (IF HasCap(Cfg) /\ RIsFin(obs.exposure) /\ RLt(RAdd(Cfg.cap, "1/1000000000"), obs.exposure)
        THEN {"cap-exceeded"} ELSE {})
  \cup (IF first \/ RLe(prev.earnings, RAdd(obs.earnings, "1/1000000000")) THEN {} ELSE {"earnings-fell"})
OpenClauses(s, ev) ==
  (IF ev.longs = -1 \/ ev.longs = NumberOf(s.open, "long") THEN {} ELSE {"open-longs"})
  \cup (IF ev.shorts = -1 \/ ev.shorts = NumberOf(s.open, "short") THEN {} ELSE {"open-shorts"})
CapClause(s, obs) ==
  IF (obs.action = "none") # (s.row.action = "none")
    THEN {IF HasCap(Cfg) THEN "cap-decision" ELSE "ignored-without-cap"} ELSE {}
\* statistics are judged against the rows and positions the implementation reported
StatClauses(rs, ev) ==
  IF ev.stats = <<>> THEN {}
  ELSE LET c == StatCounts(rs)
           a == StatAmounts(rs)
       IN {k \in DOMAIN c : ev.stats[k] # c[k]}
          \cup {k \in DOMAIN a : ~Rounded2(ev.stats[k], a[k])}
\* the reported open positions must be the ones whose entries make up the exposure (judged by the model)
StatOpenClauses(s, ev) ==
  IF ev.stats = <<>> THEN {}
  ELSE (IF ev.stats.last_open_long_positions = NumberOf(s.open, "long") THEN {} ELSE {"last_open_long_positions"})
       \cup (IF ev.stats.last_open_short_positions = NumberOf(s.open, "short") THEN {} ELSE {"last_open_short_positions"})

Report(kind, clauses) ==
  PrintT(ToJson([v |-> kind, id |-> Traces[t].id, at |-> l, clauses |-> clauses]))

Init == /\ t \in 1 .. Len(Traces)
        /\ l = 1 /\ st = InitState /\ rows = <<>> /\ phase = "run"
Step ==
  /\ phase = "run" /\ l <= Len(Traces[t].days)
  /\ LET ev  == Traces[t].days[l]
         s2  == Day(Cfg, st, ev.signal, ev.price)
         rs  == Append(rows, ev.row)
         bad == RowClauses(s2.row, ev.row)
                \cup SelfClauses(IF rows = <<>> THEN ev.row ELSE rows[Len(rows)], ev.row, rows = <<>>)
                \cup OpenClauses(s2, ev) \cup CapClause(s2, ev.row)
                \cup StatClauses(rs, ev) \cup StatOpenClauses(s2, ev)
     IN /\ st' = s2 /\ rows' = rs /\ l' = l + 1
        /\ IF bad = {} THEN phase' = "run"
           ELSE phase' = "rejected" /\ Report("REJECT", bad)
  /\ UNCHANGED t
\* a simulation of which no day was run must report all zeros
EmptyOk(e) == \A k \in DOMAIN e : (k \in DOMAIN StatCounts(<<>>) /\ e[k] = 0)
                                 \/ (k \in {"last_open_long_positions", "last_open_short_positions"} /\ e[k] = 0)
                                 \/ (k \in DOMAIN StatAmounts(<<>>) /\ e[k] = "0")
Finish ==
  /\ phase = "run" /\ l = Len(Traces[t].days) + 1
  /\ phase' = "done"
  /\ IF Traces[t].empty = <<>> \/ EmptyOk(Traces[t].empty)
     THEN Report("DONE", {}) ELSE Report("REJECT", {"empty-statistics"})
  /\ UNCHANGED <<t, l, st, rows>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* the properties of the specification also hold along every recorded behaviour
InvLedger == Ledger(Cfg, st)
InvCap    == CapRespected(Cfg, st)
InvProfit == NoProfitLeft(Cfg, st)
=============================================================================
