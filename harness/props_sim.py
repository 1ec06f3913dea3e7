"""C01-C05, C29: the trading simulator, bound to spec/TradingSim.tla in both directions."""
import json, math, warnings
from fractions import Fraction
from common import *
import indicators as I
import market

SIGNAL = {"buy": ("buy", -1), "hold": ("hold", 0), "sell": ("sell", 1)}
FIELDS = ["stock", "exposure", "portfolio", "earnings", "balance"]
COLS = {"stock": "stock_value", "exposure": "exposure", "portfolio": "portfolio_value",
        "earnings": "earnings", "balance": "balance"}
STATC = ["number_of_trading_days", "number_of_buy_signals", "number_of_ignored_buy_signals",
         "number_of_sell_signals", "number_of_ignored_sell_signals",
         "last_open_long_positions", "last_open_short_positions"]
STATA = ["last_stock_value", "last_exposure", "last_portfolio_value", "last_earnings", "final_balance"]
CLAUSES = {
    "C01": {"signal", "action", "exposure", "open-longs", "open-shorts", "last_open_long_positions",
            "last_open_short_positions", "cap-decision", "ignored-without-cap"},
    "C02": {"cap-decision", "ignored-without-cap", "cap-exceeded", "action", "exposure"},
    "C03": {"stock", "exposure", "portfolio", "earnings", "balance", "self-balance", "earnings-fell"},
    "C04": set(STATC) | set(STATA) | {"empty-statistics"},
}


def _imports():
    global pd, np, TradingSimulation, TechnicalIndicator
    warnings.simplefilter("ignore")
    import pandas as pd, numpy as np
    from tti.utils.trading_simulation import TradingSimulation
    from tti.indicators._technical_indicator import TechnicalIndicator


def fnum(s):
    """Python number of a canonical rational; None for 'none'."""
    if s == "none":
        return None
    f = Fraction(s)
    return int(f) if f.denominator == 1 else float(f)


def row_of(data, i):
    r = data.iloc[i]
    d = {"signal": str(r["signal"]), "action": str(r["open_trading_action"])}
    for k in FIELDS:
        d[k] = rat(r[COLS[k]])
    return d


def stats_of(st):
    d = {}
    for k in STATC:
        v = st.get(k, -999)
        d[k] = int(v) if float(v) == int(v) else -999
    for k in STATA:
        d[k] = rat(st.get(k, "nan"))
    return d


def dates(n, start="2020-01-01"):
    return pd.date_range(start, periods=n, freq="D")


def run_direct(case):
    """One simulation driven round by round through the public methods of TradingSimulation."""
    sig, prices = case["signals"], case["prices"]
    n = case.get("n", len(sig))
    allp = prices + [1.0] * (n - len(prices))
    idx = dates(n)
    out = {"id": case["id"], "cap": case["cap"], "factor": case["factor"], "days": [], "empty": [],
           "how": "direct", "error": ""}
    try:
        sim = TradingSimulation(idx, pd.DataFrame({"close": [float(p) for p in allp]}, index=idx),
                                fnum(case["cap"]), fnum(case["factor"]))
        if case.get("observe_empty"):
            out["empty"] = stats_of(sim.closeSimulation()[1])
        for i, (s, p) in enumerate(zip(sig, prices)):
            sim.runSimulationRound(i, SIGNAL[s])
            ev = {"signal": s, "price": rat(float(p)), "longs": -1, "shorts": -1, "stats": []}
            if case["observe"] or i == len(sig) - 1:
                data, st = sim.closeSimulation()
                ev["stats"] = stats_of(st)
                ev["longs"], ev["shorts"] = (ev["stats"]["last_open_long_positions"],
                                             ev["stats"]["last_open_short_positions"])
                ev["row"] = row_of(data, i)
            out["days"].append(ev)
        data, st = sim.closeSimulation()
        for i, ev in enumerate(out["days"]):
            last = row_of(data, i)
            if "row" in ev and ev["row"] != last:
                ev["row"] = dict(last, signal="row changed later")
            else:
                ev["row"] = last
        if len(data) != n or not data.index.equals(idx):
            out["days"][0]["row"]["signal"] = "wrong index"
        if len(data) > len(sig) and not data.iloc[len(sig):].isna().all().all():
            out["days"][-1]["row"]["signal"] = "rows after the last simulated day"
    except Exception as e:  # the code under test failed: record it as an impossible row
        out["error"] = "%s: %s" % (type(e).__name__, e)
        k = min(len(out["days"]), len(sig) - 1)
        out["days"] = [d for d in out["days"][:k] if "row" in d]
        k = len(out["days"])
        out["days"].append({"signal": sig[k], "price": rat(float(prices[k])), "longs": -1, "shorts": -1,
                            "stats": [], "row": dict({"signal": "error", "action": "error"},
                                                     **{f: "nan" for f in FIELDS})})
    return out


def scripted(signals, n, ti_rows=None):
    """An indicator whose signals are given in advance."""
    ti_rows = n if ti_rows is None else ti_rows

    class Scripted(TechnicalIndicator):
        def __init__(self, input_data):
            super().__init__(calling_instance="MovingAverage", input_data=input_data, fill_missing_values=True)

        def _calculateTi(self):
            return pd.DataFrame({"x": [float(i) for i in range(ti_rows)]}, index=self._input_data.index[:ti_rows])

        def getTiSignal(self):
            return SIGNAL[signals[len(self._ti_data) - 1]]
    idx = dates(n)
    return Scripted(pd.DataFrame({"close": [1.0] * n}, index=idx)), idx


def run_api(case):
    """The same, through getTiSimulation of an indicator with given signals."""
    sig, prices = case["signals"], case["prices"]
    n, m = case.get("n", len(prices)), len(sig)
    allp = prices + [1.0] * (n - len(prices))
    out = {"id": case["id"], "cap": case["cap"], "factor": case["factor"], "days": [], "empty": [],
           "how": "getTiSimulation", "error": ""}
    ind, idx = scripted(sig, n, m)
    try:
        kw = {}
        if case["cap"] != "none" or case.get("explicit"):
            kw["max_exposure"] = fnum(case["cap"])
        if case["factor"] != "3/2" or case.get("explicit"):
            kw["short_exposure_factor"] = fnum(case["factor"])
        data, st, plt = ind.getTiSimulation(pd.DataFrame({"close": [float(p) for p in allp]}, index=idx), **kw)
        plt.close("all")
        if m == 0:
            out["empty"] = stats_of(st)
        for i in range(m):
            ev = {"signal": sig[i], "price": rat(float(prices[i])), "longs": -1, "shorts": -1, "stats": [],
                  "row": row_of(data, i)}
            if i == m - 1:
                ev["stats"] = stats_of(st)
                ev["longs"], ev["shorts"] = (ev["stats"]["last_open_long_positions"],
                                             ev["stats"]["last_open_short_positions"])
            out["days"].append(ev)
        if len(data) != n or not data.index.equals(idx) or not data.iloc[m:].isna().all().all():
            out["days"][-1]["row"]["signal"] = "wrong rows"
    except Exception as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["days"] = [{"signal": sig[0] if sig else "hold", "price": rat(float(allp[0])), "longs": -1, "shorts": -1,
                        "stats": [], "row": dict({"signal": "error", "action": "error"},
                                                 **{f: "nan" for f in FIELDS})}]
    return out


def run_indicator(case):
    """A simulation of an indicator of the library on market data; its signals are taken as recorded (C27 judges them)."""
    name, p, x, prices = case["name"], case["p"], case["x"], case["prices"]
    n = len(prices)
    out = {"id": case["id"], "cap": case["cap"], "factor": case["factor"], "days": [], "empty": [],
           "how": "%s %s" % (name, p), "error": ""}
    df = I.shaped(rng("shape", case["id"]), x, catalog()[name]["inputs"])
    try:
        obj = I.construct(name, p, df)
    except Exception:       # constructor errors are module Ctor's business
        return None
    try:
        close = pd.DataFrame({"close": prices}, index=df.index)
        if case["whole"]:
            close["close"] = close["close"].astype("int64")
        m = len(obj.getTiData())
        data, st, plt = obj.getTiSimulation(close, max_exposure=fnum(case["cap"]), short_exposure_factor=fnum(case["factor"]))
        plt.close("all")
        if m == 0:
            out["empty"] = stats_of(st)
        for i in range(m):
            row = row_of(data, i)
            ev = {"signal": row["signal"] if row["signal"] in SIGNAL else "hold", "price": rat(prices[i]), "longs": -1,
                  "shorts": -1, "stats": [], "row": row}
            if i == m - 1:
                ev["stats"] = stats_of(st)
                ev["longs"], ev["shorts"] = (ev["stats"]["last_open_long_positions"],
                                             ev["stats"]["last_open_short_positions"])
            out["days"].append(ev)
        if m and (len(data) != n or not data.index.equals(df.index) or not data.iloc[m:].isna().all().all()):
            out["days"][-1]["row"]["signal"] = "wrong rows"
    except Exception as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["days"] = [{"signal": "hold", "price": rat(prices[0]), "longs": -1, "shorts": -1, "stats": [],
                        "row": dict({"signal": "error", "action": "error"}, **{f: "nan" for f in FIELDS})}]
    return out


def run_case(case):
    return {"api": run_api, "direct": run_direct, "indicator": run_indicator}[case["how"]](case)


def gen_indicator_cases(prop, per):
    """Simulations of every indicator; the prices are the market's, or others for the same dates."""
    out = []
    for name in sorted(catalog()):
        for k in range(per):
            r = rng("sim-ind", prop, name, k)
            p = defaults(name) if k == 0 else I.params(r, name)
            n = max(2, I.min_rows(name, p), I.warmup(name, p) + r.randint(4, 26))
            x = market.vary(r, market.bars(r, n, r.choice(["rough", "walk", "wave", "mixed"])), name)
            prices = x["close"] if r.random() < 0.8 else market.bars(r, n, "wave")["close"]
            exact = all(v * 2.0 ** 12 == int(v * 2.0 ** 12) for v in prices)
            factor, cap = r.choice(["1", "2", "3/2", "5/4"] if exact else ["1", "2"]), "none"
            if exact and r.random() < (1 if prop == "C02" else 0.5):
                cap = rat(Fraction(prices[r.randrange(n)]) * r.choice([Fraction(factor), 1, 2, 1 + Fraction(factor), 3, 5]))
            out.append({"id": "%s-%s-%d" % (prop, name, k), "how": "indicator", "name": name, "p": p, "x": x, "prices": prices,
                        "cap": cap, "factor": factor,
                        "whole": all(v == int(v) for v in prices) and r.random() < 0.5})
    return out


# ------------------------------------------------------------------ generators
def gen_cases(prop, count):
    """Random histories that keep several positions of both kinds open and reach ties."""
    cases = []
    for k in range(count):
        r = rng("sim", prop, k)
        n = r.choice([1, 2, 3, 5, 8, 13, 20, 30, 45, 60] if k % 5 else [2, 3, 4, 6])
        if k % 100 == 7:
            n = r.choice([150, 260, 400])
        style = r.choice(["grid", "walk", "swing", "jump", "cents", "flat", "trend", "pips", "penny", "index"])
        crowd = k % 100 == 57       # hundreds of open positions, closed by few days
        if crowd:
            n, style = r.choice([140, 300, 560]), "crowd"
        if style == "grid":
            vals = [r.choice([1, 2, 3, 4, 6]) for _ in range(n)]
        elif style == "walk":
            x, vals = r.randint(80, 800), []
            for _ in range(n):
                x = max(8, x + r.randint(-24, 24))
                vals.append(x / 8)
        elif style == "swing":
            vals = [100 + 40 * math.copysign(1, math.sin(i * r.choice([0.4, 0.9, 1.7]))) + r.randint(-3, 3) for i in range(n)]
        elif style == "jump":
            vals = [r.choice([1, 10, 100, 1000]) * r.choice([1, 1, 2, 3]) / r.choice([1, 2, 4]) for _ in range(n)]
        elif style in ("pips", "penny", "index"):       # moves far below a cent, or far below the price
            a, unit = {"pips": (18000, 2.0 ** -14), "penny": (700, 2.0 ** -10), "index": (2 ** 24, 0.5)}[style]
            x, vals = r.randint(a // 2, a), []
            for _ in range(n):
                x = max(8, x + r.choice([-40, -9, -2, -1, -1, 0, 1, 1, 2, 9, 40]))
                vals.append(x * unit)
        elif style == "crowd":
            up = r.random() < 0.5
            vals = [(500 + i if up else 2000 - i) / 4 for i in range(n)]
            for i in (n // 2, n - 3):
                vals[i] = r.choice([1, 2000])
        elif style == "flat":
            vals = [r.choice([7, 7, 7, 7.5]) for _ in range(n)]
        elif style == "trend":
            d = r.choice([-1, 1])
            vals = [200 + (n * 1.5 if d < 0 else 0) + d * i * 1.5 + r.choice([0, 0, 2, -2]) for i in range(n)]
        else:
            vals = [round(r.uniform(5, 60), 2) for _ in range(n)]
        if style == "cents":
            factor, cap = r.choice(["1", "2", "4"]), "none"
        else:
            factor = r.choice(["1", "5/4", "3/2", "3/2", "2", "3"])
            base = sum(vals) / len(vals)
            if prop == "C02":
                cap = r.choice(["p", "p", "q", "s", "t"])
            else:
                cap = r.choice(["none", "none", "p", "s", "t"])
            if cap == "p":      # exactly k positions of some price: equality with the cap is reachable
                cap = rat(Fraction(vals[r.randrange(n)]) * r.choice([1, 2, 3, 4]))
            elif cap == "q":    # exactly one long and one short
                a = Fraction(vals[r.randrange(n)])
                cap = rat(a + Fraction(factor) * Fraction(vals[r.randrange(n)]))
            elif cap == "s":
                cap = rat(Fraction(factor) * Fraction(vals[r.randrange(n)]) * r.choice([1, 2, 3]))
            elif cap == "t":
                cap = rat(Fraction(int(base * r.choice([0.3, 1, 2.5, 5]) * 8) + 1, 8))
            if cap != "none" and r.random() < 0.25:     # just above or below
                cap = rat(Fraction(cap) + r.choice([-1, 1]) * Fraction(1, 2 ** 15))
                cap = "1/4" if Fraction(cap) <= 0 else cap
        w = r.choice([(1, 1, 1), (4, 1, 1), (1, 1, 4), (3, 1, 3), (1, 6, 1), (2, 0, 2)])
        if crowd:
            w, cap = ((1, 0, 20) if up else (20, 0, 1)), "none" if prop != "C02" else rat(Fraction(sum(vals)) / r.choice([2, 3, 1]) + 1)
        sig = r.choices(["buy", "hold", "sell"], w, k=n)
        how = r.choice(["direct", "direct", "api"])
        c = {"id": "%s-%d" % (prop, k), "cap": cap, "factor": factor, "signals": sig, "prices": [float(v) for v in vals],
             "how": how, "observe": r.random() < 0.7, "explicit": r.random() < 0.5, "style": style,
             "observe_empty": r.random() < 0.3}
        if r.random() < 0.25:   # fewer simulated days than input rows
            c["n"] = n + r.choice([1, 2, 5])
        cases.append(c)
    return cases


def mc_cfg(prices, caps, factors, days, emit, keep):
    s = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    return ("CONSTANTS Prices = %s Caps = %s Factors = %s MaxDays = %d Emit = %s KeepHistory = %s\n"
            "SPECIFICATION Spec\nINVARIANTS TypeOK InvLedger InvCap InvIgnored InvAction InvProfit InvEntries InvSides InvStats\n"
            "PROPERTY PropMonotone\nCHECK_DEADLOCK FALSE\n"
            % (s(prices), s(caps), s(factors), days, str(emit).upper(), str(keep).upper()))


def replay_behaviour(b):
    """Replays one behaviour of the specification; returns the list of clauses that differ."""
    sig = [d["row"]["signal"] for d in b["days"]]
    prices = [fnum(d["row"]["stock"]) for d in b["days"]]
    case = {"id": "r", "cap": b["cap"], "factor": b["factor"], "signals": sig, "prices": prices, "observe": b.get("observe", False)}
    got = run_direct(case)
    bad = []
    if got["error"]:
        return ["signal", "action"] + FIELDS, got["error"], got
    for i, (d, g) in enumerate(zip(b["days"], got["days"])):
        e, o = d["row"], g["row"]
        for k in ("signal", "action"):
            if e[k] != o[k]:
                bad.append(k)
                if k == "action" and (e[k] == "none") != (o[k] == "none"):
                    bad.append("cap-decision" if b["cap"] != "none" else "ignored-without-cap")
        for k in FIELDS:
            x, y = num(e[k]), num(o[k])
            if not (abs(x - y) <= 1e-9 + 1e-12 * abs(x)):
                bad.append(k)
        if g["longs"] >= 0 and g["longs"] != d["longs"]:
            bad.append("open-longs")
        if g["shorts"] >= 0 and g["shorts"] != d["shorts"]:
            bad.append("open-shorts")
        if bad:
            return bad, "day %d" % (i + 1), got
    return bad, "", got


def replay_chunk(bs):
    return [r for r in ((b,) + replay_behaviour(b) for b in bs) if r[1]]


def stats_of_behaviour(b):
    return b


def run(prop):
    _imports()
    I.setup()
    c = Check(prop)
    deep = thorough()
    # 1. exhaustive model; its complete behaviours are replayed into the implementation
    configs = {
        "C01": (["1", "2", "3"], ["none", "7/2"], ["1", "3/2"], 4),
        "C02": (["1", "2"], ["1", "2", "3", "7/2", "5"], ["1", "3/2"], 4),
        "C03": (["1", "2", "3"], ["none", "4"], ["1", "3/2"], 4),
        "C04": (["1", "3"], ["none", "1", "3", "6"], ["1", "2"], 4),
    }
    prices, caps, factors, days = configs[prop]
    if deep:
        days += 1
    r = tlc_model("MCTradingSim", mc_cfg(prices, caps, factors, days, True, True), coverage=False, heap="6g")
    c.add(r)
    behaviours = r.replays()
    behaviours.sort(key=lambda b: json.dumps(b, sort_keys=True))
    if prop == "C04":
        for b in behaviours:
            b["observe"] = True
    n = len(behaviours)
    expect = len(caps) * len(factors) * (len(prices) * 3) ** days
    if n != expect:
        raise MachineryError("expected %d behaviours, got %d" % (expect, n))
    size = 200
    if prop == "C04":
        # statistics are judged by the trace specification
        r0 = rng("sub", prop)
        sub = behaviours if deep else r0.sample(behaviours, min(4000, n))
        cases = [{"id": "m%d" % i, "cap": b["cap"], "factor": b["factor"], "how": "direct",
                  "signals": [d["row"]["signal"] for d in b["days"]],
                  "prices": [fnum(d["row"]["stock"]) for d in b["days"]], "observe": True,
                  "observe_empty": i % 7 == 0, **({"n": len(b["days"]) + 2} if i % 3 == 0 else {})}
                 for i, b in enumerate(sub)]
        traces = pmap(run_case, cases)
        validate(c, "TrTradingSim", traces, ["InvLedger", "InvCap", "InvProfit"], CLAUSES[prop], describe, chunk=5000)
    else:
        chunks = [behaviours[i:i + size] for i in range(0, n, size)]
        for res in pmap(replay_chunk, chunks, chunksize=1):
            for b, bad, where, got in res:
                rel = set(bad) & CLAUSES[prop]
                if rel:
                    c.violation("behaviour of MCTradingSim not reproduced by the implementation: %s at %s; cap %s factor %s"
                                % (sorted(rel), where, b["cap"], b["factor"]), {"expected": b, "observed": got})
        c.traces += n
        c.note("behaviours_replayed", n)
        c.note("exhaustive", True)
        c.sample({"behaviour replayed into TradingSimulation": behaviours[n // 3]}, 1)
    # 2. deeper exploration of the model without history
    if prop == "C01":
        r = tlc_model("MCTradingSim", mc_cfg(prices, ["none", "4"], ["1", "3/2"], 6 if not deep else 7, False, False), heap="6g")
        c.add(r)
    # 3. long random histories recorded from the implementation, validated against the specification
    cases = gen_cases(prop, 700 if not deep else 6000)
    traces = pmap(run_case, cases)
    validate(c, "TrTradingSim", traces, ["InvLedger", "InvCap", "InvProfit"], CLAUSES[prop], describe, chunk=3000)
    c.note("random_histories", len(traces))
    acts = sum(1 for t in traces for d in t["days"] if d["row"]["action"] in ("long", "short"))
    ign = sum(1 for t in traces for d in t["days"][1:] if d["row"]["action"] == "none" and d["signal"] != "hold")
    c.note("days_with_opened_position", acts)
    c.note("days_with_ignored_signal", ign)
    t = next((t for t in traces if 2 <= len(t["days"]) <= 3), traces[0])
    c.sample({"recorded trace": t})
    # 4. simulations of the indicators of the library
    traces = [t for t in pmap(run_case, gen_indicator_cases(prop, 3 if not deep else 25), chunksize=2) if t]
    validate(c, "TrTradingSim", traces, ["InvLedger", "InvCap", "InvProfit"], CLAUSES[prop], describe, chunk=3000)
    c.note("simulations_of_indicators", len(traces))
    return c


def describe(tr, rec):
    i = min(rec["at"], len(tr["days"])) - 1
    return "cap=%s factor=%s %s day %d of %d: signal %s price %s recorded %s %s" % (
        tr["cap"], tr["factor"], tr["how"], i + 1, len(tr["days"]), tr["days"][i]["signal"] if tr["days"] else "",
        tr["days"][i]["price"] if tr["days"] else "", tr["days"][i]["row"] if tr["days"] else tr["empty"], tr["error"])
