"""C16-C23: indicator data, bound to spec/Indicators.tla."""
from common import *
import indicators as I
import market

FAMILY = {"C19": "ma", "C20": "osc", "C21": "vol", "C22": "chan", "C23": "path"}
CLAUSES = {
    "C16": {"columns", "index", "rows", "rounding", "missing"},
    "C17": {"repaint", "prefix-rows"},
    "C18": {"range", "order", "price-range"},
}
for _p in FAMILY:
    CLAUSES[_p] = {"value", "missing", "columns", "rows", "index"}


def names_for(prop):
    cat = catalog()
    return sorted(n for n in cat if prop not in FAMILY or cat[n]["family"] == FAMILY[prop])


def gen(prop, per, fill=True):
    """(id, name, params, data) cases."""
    out = []
    for name in names_for(prop):
        for k in range(per):
            r = rng("ind", prop, name, k)
            p = defaults(name) if k == 0 else I.params(r, name)
            lo = I.min_rows(name, p)
            w = I.warmup(name, p)
            n = r.choice([lo, lo + 1, w, w + r.randint(1, 12), w + r.randint(5, 30)]) if k % 4 else w + r.randint(6, 30)
            n = max(n, lo, 2)
            x = market.vary(r, market.bars(r, n), name)
            pre = sorted({k2 for k2 in (lo, lo + 1, n - 1, n - 2, (lo + n) // 2) if lo <= k2 < n})
            if prop != "C17":
                pre = pre[:1]
            fl = fill
            if prop in ("C16", "C17") and k % 6 == 3:
                x, fl = market.holes(r, x, catalog()[name]["inputs"]), r.random() < 0.4
                if prop == "C17" and fl:            # filling backwards is all that may change past data
                    x = {c: [next((u for u in v if u == u), 1.0)] + v[1:] if v[0] != v[0] else v for c, v in x.items()}
            out.append(("%s-%s-%d" % (prop, name, k), name, p, x, fl, pre))
        for k in range(2 if prop not in FAMILY else 8) if not thorough() else range(24):        # long periods, long histories
            r = rng("long", prop, name, k)
            p = I.large_params(r, name) if k % 4 else I.params(r, name)
            lo = I.min_rows(name, p)
            n = lo + r.choice([0, 1, 40, 80]) if k % 4 else r.choice([260, 320])
            x = market.vary(r, market.bars(r, max(2, n), r.choice(["mixed", "mixed", "walk", "rough", "wild", "extreme", "bare"])), name)
            out.append(("%s-%s-long%d" % (prop, name, k), name, p, x, fill, [n - 1] if n > max(lo, 2) else []))
    return out


def record(c):
    return I.series_trace(*c)


def describe(tr, rec):
    i = rec["at"]
    return "%s %s fill=%s n=%d day %s observed %s %s" % (
        tr["name"], tr["p"], tr["fill"], len(next(iter(tr["x"].values()))), i,
        dict(zip(tr["names"], tr["rows"][i - 1])) if 0 < i <= len(tr["rows"]) else tr["names"], tr["error"])


# --------------------------------------------------------------- exhaustive small markets, replayed
# bars of the alphabet: (open, high, low, close, volume)
ALPHABETS = [
    [(2, 3, 1, 2, 8), (2, 4, 2, 4, 4), (1, 2, 1, 1, 8), (3, 3, 3, 3, 2)],
    [(4, 8, 4, 6, 1), (6, 6, 2, 2, 2), (4, 5, 4, 5, 1)],
    [(16, 16, 16, 16, 5), (8, 16, 8, 12, 5), (17, 25, 17, 24, 7)],
    [(5, 7, 3, 5, 3), (5, 7, 3, 5, 3), (3, 4, 2, 2, 6), (8, 9, 7, 9, 2)],
]
SMALL = {1: 1, 2: 2, 3: 2, 4: 3}


def mc_cases(prop):
    out = []
    for name in names_for(prop):
        variants = [defaults(name)]
        r = rng("mcp", prop, name)
        seen = {repr(sorted(variants[0].items()))}
        for _ in range(40):
            p = I.params(r, name)
            if max([v for v in p.values() if isinstance(v, int)] + [0]) > 4:
                continue
            if repr(sorted(p.items())) not in seen:
                seen.add(repr(sorted(p.items())))
                variants.append(p)
        variants = variants[:4 if not thorough() else 8]
        for j, p in enumerate(variants):
            lo = I.min_rows(name, p)
            warm = max(0, I.warmup(name, p) - 3) if lo > 6 or j == 0 else r.choice([0, 0, 1])
            alpha = ALPHABETS[(j + len(out)) % len(ALPHABETS)]
            depth = (4 if len(alpha) == 3 else 3) if warm > 6 else 5 if len(alpha) == 3 else 4
            if thorough():
                depth += 1
            cols = catalog()[name]["inputs"]
            wb = market.bars(r, warm, "mixed") if warm else {c: [] for c in market.COLUMNS}
            bars = [dict(zip(market.COLUMNS, b)) for b in alpha]
            # alphabet around the level where the first days end
            shift = wb["close"][-1] - 2 if warm else 0
            bars = [{k: (v if k == "volume" else v + max(0, shift)) for k, v in b.items()} for b in bars]
            out.append({"id": "%s-%s-%d" % (prop, name, j), "name": name, "p": dict(p, none=0), "depth": depth, "emit": True,
                        "x": {c: [rat(v) for v in wb[c]] for c in cols},
                        "bars": [{c: rat(float(b[c])) for c in cols} for b in bars]})
    return out


DEC = {"MarketFacilitationIndex": 10, "OnBalanceVolume": None, "AccumulationDistributionLine": 0}


def replay_market(job):
    """One market of the specification, run by the implementation; returns a list of differences."""
    case, b = job
    name, p = case["name"], {k: v for k, v in case["p"].items() if k != "none"}
    x = {c: [num(v) for v in case["x"][c]] + [num(case["bars"][k - 1][c]) for k in b["path"]] for c in case["x"]}
    try:
        d = I.construct(name, p, I.frame(x, list(case["x"]))).getTiData()
        got = d.to_numpy(dtype=object).tolist()
        names = [str(c) for c in d.columns]
    except Exception as e:
        if not b["cols"]:
            return []
        return [("columns", "%s: %s" % (type(e).__name__, e))]
    if not b["cols"]:
        return []
    if names != [c["name"] for c in b["cols"]]:
        return [("columns", str(names))]
    if len(got) != len(b["cols"][0]["lo"]):
        return [("rows", str(len(got)))]
    dec = DEC.get(name, 4)
    out = []
    for i, row in enumerate(got):
        for k, v in enumerate(row):
            lo, hi, v = num(b["cols"][k]["lo"][i]), num(b["cols"][k]["hi"][i]), float(v)
            if math.isnan(lo) != math.isnan(hi):
                continue
            if math.isnan(lo) or math.isnan(v):
                if math.isnan(lo) != math.isnan(v):
                    out.append(("missing", "day %d %s: %s, expected %s" % (i + 1, names[k], v, lo)))
                continue
            if math.isinf(lo) or math.isinf(hi) or math.isinf(v):
                if v not in (lo, hi):
                    out.append(("value", "day %d %s: %s, expected %s" % (i + 1, names[k], v, lo)))
                continue
            slack = (0 if dec in (None, 0) else 0.5001 * 10 ** -dec) + (1e-14 if dec == 10 else 1e-7) + 1e-10 * (abs(lo) + abs(hi))
            if not min(lo, hi) - slack <= v <= max(lo, hi) + slack:
                out.append(("value", "day %d %s: %s, expected %s" % (i + 1, names[k], v, lo)))
            if dec is not None and abs(v - round(v, dec)) > 1e-15 + 1e-15 * abs(v):
                out.append(("rounding", "day %d %s: %r" % (i + 1, names[k], v)))
    return out


def model_and_replay(c, prop):
    cases = mc_cases(prop)
    path = os.path.join(scratch(), "cases-%s.json" % prop)
    with open(path, "w") as f:
        json.dump(cases, f)
    r = tlc_model("MCIndicators", "SPECIFICATION Spec\nINVARIANTS InvRange InvShape InvInterval\nPROPERTY NoRepaint\n"
                  "CHECK_DEADLOCK FALSE\n", env={"CASES": path}, heap="8g")
    c.add(r)
    by = {k["id"]: k for k in cases}
    reps = sorted(r.replays(), key=lambda b: (b["id"], b["path"]))
    want = sum(len(k["bars"]) ** k["depth"] for k in cases)
    if len(reps) != want:
        raise MachineryError("expected %d markets, got %d" % (want, len(reps)))
    jobs = [(by[b["id"]], b) for b in reps]
    for (case, b), diffs in zip(jobs, pmap(replay_market, jobs, chunksize=50)):
        rel = [d for d in diffs if d[0] in CLAUSES[prop]]
        if rel:
            c.violation("%s %s: market of MCIndicators %s: %s" % (case["name"], case["p"], b["path"], rel[0][1]),
                        {"case": case, "path": b["path"], "expected": b["cols"], "differences": rel[:10]})
    c.traces += len(reps)
    c.note("markets_replayed", len(reps))
    if reps:
        c.sample({"market": {"case": {k: by[reps[0]["id"]][k] for k in ("name", "p", "x", "bars")}, "path": reps[0]["path"],
                             "expected": reps[0]["cols"]}}, 1)


def run(prop):
    I.setup()
    c = Check(prop)
    model_and_replay(c, prop)
    t0 = time.time()
    cases = gen(prop, int(os.environ.get("PER", 120)))
    traces = pmap(record, cases, chunksize=4)
    validate(c, "TrIndicators", traces, [], CLAUSES[prop], describe, chunk=1500, heap="6g")
    return c
