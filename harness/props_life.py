"""C06, C27: the life of an indicator along the market, bound to spec/Life.tla."""
from common import *
import indicators as I
import market
from props_ind import ALPHABETS

CLAUSES = {"C06": {"sim-rows", "sim-signal", "look-ahead", "last"}, "C27": {"invalid", "early", "unstable"}}
TUPLES = (("buy", -1), ("hold", 0), ("sell", 1))


def one(obj):
    """The signal as the specification names it; anything but one of the three tuples is no signal."""
    try:
        s = obj.getTiSignal()
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:80])
    if type(s) is tuple and len(s) == 2 and s in TUPLES and type(s[0]) is str and s[1] is not True and s[1] is not False:
        return s[0]
    return repr(s)


def simulate(obj, df):
    """Signals recorded by a simulation, those beyond the indicator's rows, and whether its index is the input dates."""
    rows = len(obj.getTiData())
    try:
        close = I.pd.DataFrame({"close": [10.0 + (i * 7) % 5 for i in range(len(df))]}, index=df.index)
        d = obj.getTiSimulation(close)[0]
        I.plt.close("all")
    except Exception as e:
        I.plt.close("all")
        return ["%s: %s" % (type(e).__name__, str(e)[:80])] * max(rows, 1), [], False
    sig = [v if isinstance(v, str) else "missing" for v in d["signal"].tolist()]
    return sig[:rows], [s for s in sig[rows:] if s != "missing"], bool(d.index.equals(df.index.sort_values()))


def fresh_signals(name, p, df, fill, ks):
    out = []
    for k in ks:
        try:
            o = I.construct(name, p, df.iloc[:k].copy(), fill)
        except Exception:
            continue
        out.append({"k": k, "s": one(o)})
    return out


# ------------------------------------------------------------------------------------------- model
# bars of the alphabet: open, high, low, close, volume; None is missing
HOLED = [[(4, 8, 4, 6, 1), (6, 6, 2, 2, 2), (None,) * 5],
         [(2, 3, 1, 2, 8), (None, 4, None, 4, 4), (1, 2, 1, None, None)],
         [(3, 3, 3, 3, 3), (None,) * 5, (9, 9, 1, 1, 5)]]


def mc_cases(prop):
    out = []
    for name in sorted(catalog()):
        r = rng("life", prop, name)
        variants, seen = [defaults(name)], {repr(sorted(defaults(name).items()))}
        for _ in range(40):
            p = I.params(r, name)
            if max([v for v in p.values() if isinstance(v, int)] + [0]) <= 4 and repr(sorted(p.items())) not in seen:
                seen.add(repr(sorted(p.items())))
                variants.append(p)
        variants = variants[:3 if not thorough() else 6]
        while len(variants) < 3:
            variants.append(variants[-1])
        for j, p in enumerate(variants):
            lo = I.min_rows(name, p)
            holed = (prop == "C27" and j % 3 != 0) or (prop == "C06" and j % 3 == 2)
            alpha = (HOLED if holed else [a[:3] for a in ALPHABETS])[(j + len(out)) % (3 if holed else len(ALPHABETS))]
            fill = not holed or (j + len(out)) % 2 == 0
            if prop == "C27":
                warm = 0 if lo <= 3 else lo - 1 - (j % 2)
            else:
                warm = max(1, I.warmup(name, p) - 1) if j != 1 else max(1, lo - 1)
            depth = (4 if warm < 8 and (prop == "C27" or j == 2) else 3) + (1 if thorough() else 0)
            wb = market.bars(r, warm, "rough") if warm else {c: [] for c in market.COLUMNS}
            if holed and warm and j % 2 and prop == "C27":
                wb = {c: [math.nan] * warm for c in market.COLUMNS}
            last = [v for v in wb["close"] if not math.isnan(v)]
            shift = max(0, last[-1] - 4) if last else 0
            cols = catalog()[name]["inputs"]
            bars = [{k: (math.nan if v is None else v if k == "volume" else v + shift) for k, v in zip(market.COLUMNS, b)} for b in alpha]
            out.append({"id": "%s-%s-%d" % (prop, name, j), "name": name, "p": dict(p, none=0), "depth": depth, "fill": fill,
                        "x": {c: [rat(v) for v in wb[c]] for c in cols},
                        "bars": [{c: rat(float(b[c])) for c in cols} for b in bars]})
    return out


def replay_life(job):
    """One market of the specification, lived by the implementation; differences as (clause, text)."""
    case, b = job
    name, p = case["name"], {k: v for k, v in case["p"].items() if k != "none"}
    x = {c: [num(v) for v in case["x"][c]] + [num(case["bars"][k - 1][c]) for k in b["path"]] for c in case["x"]}
    df = I.frame(x, list(case["x"]))
    try:
        obj = I.construct(name, p, df, case["fill"])
    except Exception as e:
        return [("refused", "%s: %s" % (type(e).__name__, e))] if b["built"] else []
    out = []
    finals = [one(obj)]
    if case["id"].startswith("C06") or b["path"][-1] == 1:
        sig, beyond, index = simulate(obj, df)
    else:
        sig, beyond, index = [], [], True
        finals += [s["s"] for s in fresh_signals(name, p, df, case["fill"], [len(df)])]
    finals += [one(obj), one(I.construct(name, p, df, case["fill"]))]
    if not b["built"]:
        return [("invalid", "final %s" % f) for f in finals if f not in ("buy", "hold", "sell")]
    if sig and len(sig) != b["rows"] or beyond or not index:
        out.append(("sim-rows", "%d rounds for %d rows, %d signals beyond, index %s" % (len(sig), b["rows"], len(beyond), index)))
    for i, allowed in enumerate(b["sim"] if sig or b["path"][-1] == 1 or case["id"].startswith("C06") else []):
        k = b["from"] + i
        got = sig[k - 1] if k <= len(sig) else "no signal"
        if got not in allowed:
            out.append(("sim-signal", "day %d: %s, allowed %s" % (k, got, allowed)))
    for f in finals + sig:
        if f not in ("buy", "hold", "sell"):
            out.append(("invalid", "signal %s" % f))
        elif b["early"] and f != "hold":
            out.append(("early", "signal %s" % f))
    if len(set(finals)) > 1:
        out.append(("unstable", "getTiSignal() gave %s" % finals))
    if b["rows"] == len(df) and sig and sig[-1] not in finals:
        out.append(("last", "last round %s, getTiSignal() %s" % (sig[-1], finals)))
    return out


def model_and_replay(c, prop):
    cases = mc_cases(prop)
    path = os.path.join(scratch(), "life-%s.json" % prop)
    with open(path, "w") as f:
        json.dump(cases, f)
    r = tlc_model("MCLife", "SPECIFICATION Spec\nINVARIANTS InvValid InvEarly\nPROPERTIES NoLookAhead RoundsAppend\n"
                  "CHECK_DEADLOCK FALSE\n", env={"CASES": path}, heap="8g")
    c.add(r)
    by = {k["id"]: k for k in cases}
    reps = sorted(r.replays(), key=lambda b: (b["id"], b["path"]))
    want = sum(len(k["bars"]) ** k["depth"] for k in cases)
    if len(reps) != want:
        raise MachineryError("expected %d markets, got %d" % (want, len(reps)))
    fired = {}
    for b in reps:
        for s in b["sim"]:
            k = "/".join(sorted(s))
            fired[k] = fired.get(k, 0) + 1
    c.note("expected_rounds", fired)
    for b, diffs in zip(reps, pmap(replay_life, [(by[b["id"]], b) for b in reps], chunksize=25)):
        case = by[b["id"]]
        rel = [d for d in diffs if d[0] in CLAUSES[prop]]
        if rel:
            c.violation("%s %s fill=%s: market %s of MCLife: %s" % (case["name"], case["p"], case["fill"], b["path"], rel[:2]),
                        {"case": case, "behaviour": b, "differences": rel[:10]})
    c.traces += len(reps)
    c.note("markets_replayed", len(reps))
    c.sample({"market": reps[len(reps) // 2], "name": by[reps[len(reps) // 2]["id"]]["name"]}, 1)


# ------------------------------------------------------------------------------------------ traces
def odd(r, x, cols):
    """Data outside the domain of the rules: zero, negative, huge, tiny and infinite values."""
    y = {c: list(x[c]) for c in cols}
    n = len(y[cols[0]])
    kind = r.choice(["zero", "zero volume", "negative", "huge", "tiny", "zeros", "infinite", "constant zero", "mixed"])
    for c in cols:
        for i in range(n):
            if kind == "zero" and r.random() < 0.2 or kind == "zeros" and r.random() < 0.7 or kind == "constant zero":
                y[c][i] = 0.0
            elif kind == "zero volume" and c == "volume":
                y[c][i] = 0.0
            elif kind == "negative":
                y[c][i] = -y[c][i] if r.random() < 0.4 else y[c][i]
            elif kind == "huge":
                y[c][i] *= 2.0 ** 60
            elif kind == "tiny":
                y[c][i] *= 2.0 ** -60
            elif kind == "infinite" and r.random() < 0.1:
                y[c][i] = r.choice([math.inf, -math.inf])
            elif kind == "mixed" and r.random() < 0.3:
                y[c][i] = r.choice([0.0, -1.0, 2.0 ** 40, math.nan, 2.0 ** -40])
    return y


def gen(prop):
    per = int(os.environ.get("PER", {"C06": 24, "C27": 36}[prop] * (1 if not thorough() else 8)))
    out = []
    for name in sorted(catalog()):
        for k in range(per):
            r = rng("life-trace", prop, name, k)
            p = defaults(name) if k % 3 == 0 else I.params(r, name)
            lo, w = I.min_rows(name, p), I.warmup(name, p)
            cols = catalog()[name]["inputs"]
            mode = (["clean", "clean", "holes", "holes"] if prop == "C06" else ["clean", "holes", "short", "odd", "missing", "holes"])[k % (4 if prop == "C06" else 6)]
            n = {"short": r.choice([lo, lo, lo + 1, lo + 2]), "missing": r.choice([lo, lo + 1, w + 4])}.get(mode) or max(
                lo, r.choice([w + r.randint(0, 6), w + r.randint(8, 25)]))
            if name in ("NegativeVolumeIndex", "PositiveVolumeIndex") and k % 12 == 1:
                n = 254 + r.randint(0, 6)
            if name == "ChaikinOscillator" and k % 4 == 1:
                n = 90 + r.randint(0, 8)
            x = market.bars(r, n, r.choice(["rough", "rough", "mixed", "walk", "wave", "flat"]))
            x = market.vary(r, x, name, True)
            x = {c: x[c] for c in cols}
            if mode == "holes" or (mode == "short" and k % 4):
                x = market.holes(r, x, cols)
            elif mode == "odd":
                x = odd(r, x, cols)
            elif mode == "missing":
                for c in (cols if k % 4 else [r.choice(cols)]):
                    x[c] = [math.nan] * n
            out.append(("%s-%s-%d" % (prop, name, k), name, p, x, r.random() < 0.5, mode != "odd", prop))
    return out


def record(job):
    i, name, p, x, fill, exact, prop = job
    cols = catalog()[name]["inputs"]
    df = I.shaped(rng("shape", i), x, cols)
    n = len(df)
    seen = df.ffill().bfill() if fill else df
    t = {"id": i, "name": name, "p": dict(p, none=0), "fill": fill, "exact": exact,
         "steady": exact and not (fill and bool(df.iloc[0].isna().any())), "from": 1 if n < 100 else n - 5,
         "x": {c: [rat(v) for v in seen[c]] for c in cols}, "error": ""}
    try:
        obj = I.construct(name, p, df, fill)
    except Exception as e:
        t.update(error="%s: %s" % (type(e).__name__, e))
        return t
    d = obj.getTiData()
    t["names"], t["rows"] = [str(c) for c in d.columns], I.rows_of(d)
    finals = [one(obj)]
    t["sig"], t["beyond"], t["index"] = simulate(obj, df)
    finals += [one(obj), one(I.construct(name, p, df, fill))]
    t["finals"] = finals
    lo = I.min_rows(name, p)
    r = rng("prefixes", i)
    ks = range(lo, n + 1) if n - lo < 12 else sorted(set([lo, lo + 1, n - 1, n] + r.sample(range(lo, n + 1), 10)))
    t["fresh"] = fresh_signals(name, p, df, fill, ks)
    return t


def describe(tr, rec):
    i = rec["at"]
    return "%s %s fill=%s n=%d day %s: simulated %s, fresh %s, finals %s, last rows %s %s" % (
        tr["name"], tr["p"], tr["fill"], len(next(iter(tr["x"].values()))), i, tr["sig"][i - 1:i],
        [f for f in tr["fresh"] if f["k"] == i], tr["finals"], tr["names"],
        [[str(num(v)) for v in r] for r in tr["rows"][max(0, i - 4):i]])


def run(prop):
    I.setup()
    c = Check(prop)
    model_and_replay(c, prop)
    traces = pmap(record, gen(prop), chunksize=2)
    refused = [t for t in traces if t["error"]]
    c.note("refused_constructions", len(refused))
    traces = [t for t in traces if not t["error"]]
    fired = {}
    for t in traces:
        for s in t["sig"]:
            fired[s] = fired.get(s, 0) + 1
    c.note("recorded_signals", fired)
    c.note("signals_of_prefix_objects", sum(len(t["fresh"]) for t in traces))
    validate(c, "TrLife", traces, [], CLAUSES[prop], describe, chunk=1500, heap="6g")
    return c
