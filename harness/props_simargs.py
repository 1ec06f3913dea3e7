"""C05: simulation arguments, bound to spec/SimArgs.tla."""
from common import *
import indicators as I
import market
import props_frame as F

SMALL = [("MovingAverage", {"period": 2, "ma_type": "simple"}), ("OnBalanceVolume", {}), ("FibonacciRetracement", {}), ("Qstick", {"period": 1}),
         ("MedianPrice", {"period": 2}), ("WilliamsAccumulationDistribution", {}), ("PriceAndVolumeTrend", {}), ("MarketFacilitationIndex", {})]
SIGNALS = [("buy", -1), ("sell", 1), ("hold", 0), ("sell", 1), ("buy", -1)]


def value(v, cap):
    """The Python value of a cap or factor."""
    k = v["kind"]
    if k == "num":
        f = Fraction(v["v"])
        return int(f) if f.denominator == 1 and cap else float(f)
    return {"none": None, "zero float": 0.0, "nan": math.nan, "inf": math.inf, "minus inf": -math.inf, "text": "x", "number text": "1.5",
            "list": [2.0], "dict": {"a": 2}, "class": float, "empty text": "", "empty list": [], "empty dict": {}, "tuple": (2.0,),
            "complex": 2 + 0j, "bytes": b"2", "frame": I.pd.DataFrame({"close": [1.0]})}[k]


def close_frame(close, style="irregular"):
    f, n = close["frame"], len(close["frame"]["days"])
    pd, np = I.pd, I.np
    idx = {"dates": lambda: pd.DatetimeIndex([F.stamp(d, style) for d in f["days"]]), "range": lambda: pd.RangeIndex(n),
           "strings": lambda: pd.Index([str(F.stamp(d, style).date()) for d in f["days"]]), "integers": lambda: pd.Index(list(f["days"])),
           "periods": lambda: pd.PeriodIndex([F.stamp(d, style) for d in f["days"]], freq="D"),
           "date objects": lambda: pd.Index([F.stamp(d, style).date() for d in f["days"]], dtype=object)}[close["index"]]()
    labels, cols = [], []
    for c in f["cols"]:
        if c["name"].startswith("*"):
            label, vals = F.extra(c["kind"], n)
        else:
            label, base = F.SPELL[c["spell"]](c["name"]), [num(v) for v in c["vals"]]
            vals = I.stored(base, c["kind"]) if c["kind"] in I.STORAGE else {"num": lambda: base, "text": lambda: ["%s" % v for v in base],
                    "object": lambda: np.array(base, dtype=object), "mixed": lambda: np.array([("x" if i == n - 1 else v) for i, v in enumerate(base)], dtype=object),
                    "dates": lambda: pd.date_range("2001-01-01", periods=n), "category": lambda: pd.Categorical(["%s" % v for v in base])}[c["kind"]]()
        labels.append(label)
        cols.append(pd.Series(vals, index=idx))
    df = pd.concat(cols, axis=1) if cols and len(set(f["days"])) == len(f["days"]) else pd.DataFrame({i: s.to_numpy() for i, s in enumerate(cols)}, index=idx)
    df.columns = pd.Index(labels, dtype=object)
    t = close["type"]
    if t == "frame":
        return df
    return {"none": lambda: None, "list": lambda: df.values.tolist(), "dict": lambda: {str(c): list(df[c]) for c in df.columns},
            "series": lambda: df.iloc[:, 0], "array": lambda: df.to_numpy(), "text": lambda: "close", "class": lambda: I.pd.DataFrame, "empty list": lambda: [], "empty text": lambda: "",
            "indexed series": lambda: I.pd.Series([1.0] * n, index=idx, name="close")}[t]()


def direct(idx, close, cap, factor):
    from tti.utils.trading_simulation import TradingSimulation
    s = TradingSimulation(input_data_index=idx, close_values=close, max_exposure=cap, short_exposure_factor=factor)
    for i in range(len(idx)):
        s.runSimulationRound(i_index=i, signal=SIGNALS[i % 5])
    return s.closeSimulation()


def outcome(call):
    try:
        return "ok", call()
    except Exception as e:
        return type(e).__name__, None


def same(a, b):
    return F.text(a[0]) == F.text(b[0]) and {k: rat(v) for k, v in a[1].items()} == {k: rat(v) for k, v in b[1].items()}


def replay(job):
    k, b = job
    call, days = b["call"], b["input"]
    cap, factor = value(call["cap"], k % 2 == 0), value(call["factor"], k % 3 == 0)
    idx = I.pd.DatetimeIndex([F.stamp(d) for d in (days if k % 2 else sorted(days))])
    want = "ok" in b["outcomes"]
    plain = I.pd.DataFrame({"close": [num(v) for v in b["prices"]]}, index=idx.sort_values()) if want else None
    out = []
    ways = [("TradingSimulation", lambda close: direct(idx, close, cap, factor))]
    if want or k % 3 == 0:
        name, p = SMALL[k % len(SMALL)]
        x = market.bars(rng("simargs", k), len(days), "rough")
        df = I.pd.DataFrame({c: x[c] for c in catalog()[name]["inputs"]}, index=idx)
        obj = I.construct(name, p, df)
        kw = {}
        if call["cap"]["kind"] != "none" or k % 4:
            kw["max_exposure"] = cap
        if call["factor"] != {"kind": "num", "v": "3/2"} or k % 4:
            kw["short_exposure_factor"] = factor
        ways.append((name, lambda close: obj.getTiSimulation(close, **kw)[:2]))
    for name, f in ways:
        got, res = outcome(lambda: f(close_frame(call["close"])))
        I.plt.close("all")
        if got not in b["outcomes"]:
            out.append("%s: outcome %s, allowed %s" % (name, got, b["outcomes"]))
        elif got == "ok":
            stock = [rat(v) for v in res[0]["stock_value"].tolist()]
            if stock != [rat(num(v)) for v in b["prices"]]:
                out.append("%s: simulated prices %s, expected %s" % (name, stock, b["prices"]))
            if not res[0].index.equals(idx.sort_values()):
                out.append("%s: simulated days %s" % (name, list(res[0].index)))
            if not same(res, f(plain)):
                out.append("%s: simulation differs from the one with the plain close prices" % name)
            I.plt.close("all")
    return out


def record(job):
    """A random simulation call of a random indicator."""
    name, k = job
    r = rng("simargs-trace", name, k)
    p = defaults(name) if k % 4 == 0 else I.params(r, name)
    n = max(I.min_rows(name, p), 2) + r.randint(0, 6)
    style = r.choice(["irregular", "intraday", "old", "daily"])
    cols = catalog()[name]["inputs"]
    x = market.bars(r, n, "rough")
    days = sorted(r.sample(range(1, 3 * n + 3), n))
    prices = [float(r.randint(8, 90)) / 4 for _ in range(n)]
    vals = market.holes(r, {"close": prices}, ["close"], r.choice([0.1, 0.5]))["close"] if k % 2 else prices
    order = list(range(n))
    r.shuffle(order)
    cdays = list(days)
    fault = r.choice(["none"] * 5 + ["missing day", "extra day", "shifted day", "duplicate", "text", "absent", "int"])
    if fault == "missing day" or fault == "extra day" or fault == "duplicate":
        i = r.randrange(n)
        if fault == "missing day":
            order.remove(i)
        elif fault == "duplicate":
            order.insert(r.randrange(n), i)
        else:
            cdays.append(days[-1] + r.choice([1, 5]))
            vals = vals + [3.0]
            order.insert(r.randrange(n), n)
    elif fault == "shifted day":
        free = [d for d in range(1, 3 * n + 4) if d not in days]
        cdays[r.randrange(n)] = r.choice(free)
    kind = "text" if fault == "text" else "int" if fault == "int" and not any(math.isnan(v) for v in vals) else "num"
    if kind == "int":
        vals = [float(int(v)) for v in vals]
    fcols = [] if fault == "absent" else [{"name": "close", "spell": r.choice(["lower", "upper", "title"]), "kind": kind, "vals": [rat(vals[i]) for i in order]}]
    for e in r.sample(["number", "text", "missing", "dates", "number label", "same label"][:5], r.choice([0, 0, 1, 2])):
        fcols.insert(r.randint(0, len(fcols)), {"name": "*" + e, "spell": "lower", "kind": e, "vals": ["0"] * len(order)})
    close = {"type": "frame", "index": "dates", "frame": {"days": [cdays[i] for i in order], "cols": fcols}}
    cap = r.choice([{"kind": "none", "v": "0"}] * 3 + [{"kind": "num", "v": v} for v in ("40", "25/2", "1/1024", "1000", "0", "-5")] + [{"kind": "nan", "v": "0"}])
    factor = r.choice([{"kind": "num", "v": "3/2"}] * 4 + [{"kind": "num", "v": v} for v in ("1", "2", "5/4", "1023/1024", "0")] + [{"kind": "none", "v": "0"}])
    t = {"id": "%s-%d" % (name, k), "name": name, "input": [days[i] for i in range(n)], "close": close, "cap": cap, "factor": factor,
         "outcome": "", "stock": [], "days": [], "twin": False, "what": fault}
    idx = I.pd.DatetimeIndex([F.stamp(d, style) for d in days])
    xorder = list(range(n))
    r.shuffle(xorder)
    obj = I.construct(name, p, I.pd.DataFrame({c: x[c] for c in cols}, index=idx).iloc[xorder])
    cv, fv = value(cap, k % 2 == 0), value(factor, k % 3 == 0)
    t["outcome"], res = outcome(lambda: obj.getTiSimulation(close_frame(close, style), cv, fv)[:2])
    if res:
        day = {F.stamp(d, style): d for d in days}
        t["days"] = [day.get(i, -1) for i in res[0].index]
        rows = len(obj.getTiData())
        t["stock"] = [rat(v) for v in res[0]["stock_value"].tolist()][:rows]
        s = sorted(zip([cdays[i] for i in order], [vals[i] for i in order]))
        plain = I.pd.Series([v for _, v in s]).ffill().bfill().tolist()
        try:
            t["twin"] = same(res, obj.getTiSimulation(I.pd.DataFrame({"close": plain}, index=idx), max_exposure=cv, short_exposure_factor=fv)[:2])
        except Exception:
            pass
    I.plt.close("all")
    return t


def describe(tr, rec):
    return "%s: input days %s, close frame %s, cap %s, factor %s: %s, prices %s" % (
        tr["name"], tr["input"], [tr["close"]["frame"]["days"]] + [(q["name"], q["spell"], q["kind"], q["vals"]) for q in tr["close"]["frame"]["cols"]],
        tr["cap"], tr["factor"], tr["outcome"], tr["stock"])


def run(prop):
    F.setup()
    c = Check(prop)
    outs = {}
    for mode in ("days", "args"):
        r = tlc_model("MCSimArgs", 'CONSTANTS Mode = "%s" MaxDays = %d\nSPECIFICATION Spec\nINVARIANTS InvOne InvPrices\nCHECK_DEADLOCK FALSE\n'
                      % (mode, 5 if not thorough() else 6))
        c.add(r)
        reps = sorted(r.replays(), key=lambda b: json.dumps(b, sort_keys=True))
        for b, res in zip(reps, pmap(replay, list(enumerate(reps)), chunksize=20)):
            for o in b["outcomes"]:
                outs[o] = outs.get(o, 0) + 1
            if res:
                q = b["call"]
                c.violation("close prices %s %s days %s columns %s, cap %s, factor %s: %s" % (
                    q["close"]["type"], q["close"]["index"], q["close"]["frame"]["days"],
                    [(x["name"], x["spell"], x["kind"], x["vals"]) for x in q["close"]["frame"]["cols"]], q["cap"], q["factor"], res[0]),
                    {"call": b, "differences": res})
        c.traces += len(reps)
        c.note("calls_replayed", len(reps))
    c.note("expected_outcomes", outs)
    c.sample({"call": reps[len(reps) // 2]}, 1)
    per = int(os.environ.get("PER", 12 if not thorough() else 120))
    traces = pmap(record, [(n, k) for n in sorted(catalog()) for k in range(per)], chunksize=4)
    kinds = {}
    for t in traces:
        q = "%s: %s" % (t["what"], t["outcome"])
        kinds[q] = kinds.get(q, 0) + 1
    c.note("recorded_calls", kinds)
    validate(c, "TrSimArgs", traces, [], None, describe, chunk=2000)
    return c
