"""C24-C26: trading signals, bound to spec/Signals.tla."""
from common import *
import indicators as I
import market

FAMILY = {"C24": "cross", "C25": "latest", "C26": "pattern"}
SETS = {"cross": "CrossingNames", "latest": "LatestNames", "pattern": "PatternNames"}


def frame_for(name, closes):
    x = {"close": closes, "open": closes, "high": [v + 1 for v in closes], "low": [v - 1 for v in closes],
         "volume": [float(1 + i % 3) for i in range(len(closes))]}
    return I.frame(x, catalog()[name]["inputs"])


class Unbindable(Exception):
    """The published indicator data cannot be set from outside (the object keeps them elsewhere)."""


def replay_group(job):
    """All paths of one case with the same closes: real object, published data replaced, signal asked."""
    case, closes, items = job
    name, p = case["name"], {k: v for k, v in case["p"].items() if k != "none"}
    cl = [num(v) for v in closes]
    n = len(cl)
    need = max(I.min_rows(name, p), n)
    padded = [cl[0]] * (need - n) + cl
    df = frame_for(name, padded)
    try:
        obj = I.construct(name, p, df)
    except Exception as e:
        return [(items[0], "construction failed: %s: %s" % (type(e).__name__, e))]
    out = []
    try:
        own = obj.getTiData()
        if list(own.columns) and set(own.columns) != set(items[0]["steps"][0][1]):
            return [(items[0], "columns %s" % list(own.columns))]
        full_in = obj._input_data
        obj._input_data = full_in.iloc[need - n:]
    except AttributeError:
        return ["unbindable"]
    for it in items:
        cols = {}
        for k in own.columns:
            vals = [case["row"][k]] * case["quiet"] + [s[1][k] for s in it["steps"]]
            cols[k] = [num(v) for v in vals]
        data = I.pd.DataFrame(cols, index=df.index[need - n:], columns=own.columns, dtype="float64")
        obj._ti_data = data
        if not obj.getTiData().equals(data):
            return ["unbindable"]
        try:
            s = obj.getTiSignal()
            got = s[0] if s in (("buy", -1), ("hold", 0), ("sell", 1)) else repr(s)
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, e)
        if got not in it["sig"]:
            out.append((it, "got %s, allowed %s" % (got, it["sig"])))
    return out


def model_and_replay(c, fam):
    r = tlc_model("MCSignals", 'CONSTANT Family = "%s"\nSPECIFICATION Spec\nINVARIANTS InvSignal InvTooFew InvMissing\n'
                  "CHECK_DEADLOCK FALSE\n" % fam, heap="6g")
    c.add(r)
    cases = r.replays("CASES ")[0]
    groups = {}
    reps = r.replays()
    for b in sorted(reps, key=lambda b: (b["c"], json.dumps(b["steps"], sort_keys=True))):
        case = cases[b["c"] - 1]
        key = (b["c"], tuple([case["close"]] * case["quiet"] + [s[0] for s in b["steps"]]))
        groups.setdefault(key, []).append(b)
    jobs = [(cases[k[0] - 1], list(k[1]), v) for k, v in groups.items() if cases[k[0] - 1]["name"] in catalog()]
    n = unb = 0
    fired = {}
    for job, res in zip(jobs, pmap(replay_group, jobs, chunksize=20)):
        if res == ["unbindable"]:
            unb += len(job[2])
            continue
        n += len(job[2])
        for it in job[2]:
            f = fired.setdefault(job[0]["name"], {})
            for s in it["sig"]:
                f[s] = f.get(s, 0) + 1
        for it, what in res:
            c.violation("%s %s: rows %s after %d quiet rows: %s" % (
                job[0]["name"], job[0]["p"], it["steps"], job[0]["quiet"], what), {"case": job[0], "behaviour": it, "what": what})
    c.traces += n
    c.note("windows_replayed", n)
    c.note("windows_not_bindable", unb)
    c.note("expected_signals", fired)
    if reps:
        c.sample({"window": reps[len(reps) // 2], "case": cases[reps[len(reps) // 2]["c"] - 1]}, 1)



def families():
    """Families as in the specification (which indicator has which kind of rule)."""
    r = tlc("ShowSignals", "", workers=1)
    m = r.replays("FAMILIES ")
    if not m:
        raise MachineryError("no families: " + tail_error(r.out))
    return m[0]


LONG = {"NegativeVolumeIndex": 256, "PositiveVolumeIndex": 256, "ChaikinOscillator": 92}


def gen(prop, names, per):
    out = []
    for name in names:
        m = max(6, per // 8) if LONG.get(name, 0) > 200 else per
        for k in range(m):
            r = rng("sig", prop, name, k)
            p = defaults(name) if k % 3 == 0 else I.params(r, name)
            if name in ("TypicalPrice", "MedianPrice") and k % 3 == 0 and k:
                p = {"period": r.choice([1, 2, 3, 5])}
            elif k % 16 == 14 and name not in LONG:
                p = I.large_params(r, name)
            lo, w = I.min_rows(name, p), I.warmup(name, p)
            n = max(lo, 2, r.choice([w + r.randint(0, 6), w + r.randint(8, 25), w + r.randint(15, 45)]))
            if name in LONG:
                n = LONG[name] + r.randint(-3, 12)
            x = market.vary(r, market.bars(r, n, r.choice(["rough", "rough", "mixed", "walk", "wave"])), name, True)
            if k % 5 == 4:
                x = market.holes(r, x, market.COLUMNS, 0.08)
            if name in LONG and LONG[name] > 200:
                start = n - 6
            else:
                start = 1
            out.append(("%s-%s-%d" % (prop, name, k), name, p, x, start, k % 10 != 9))
    return out


def record(case):
    """Published data, signals of a simulation (one per day) and the final signal of one object."""
    i, name, p, x, start, fill = case
    cols = catalog()[name]["inputs"]
    df = I.shaped(rng("shape", i), x, cols)
    t = {"id": i, "name": name, "p": dict(p, none=0), "x": {c: [rat(v) for v in x[c]] for c in cols}, "from": start, "fill": fill}
    try:
        obj = I.construct(name, p, df, fill)
        d = obj.getTiData()
        t["names"], t["rows"] = [str(c) for c in d.columns], I.rows_of(d)
        s = obj.getTiSignal()
        t["final"] = s[0] if s in (("buy", -1), ("hold", 0), ("sell", 1)) else repr(s)
        sim = obj.getTiSimulation(I.pd.DataFrame({"close": [10.0] * len(df)}, index=df.index))[0]
        t["sig"] = [str(v) for v in sim["signal"].tolist()][:len(d)]
        I.plt.close("all")
    except Exception as e:
        t.setdefault("names", ["error"])
        t.setdefault("rows", [])
        t.update(sig=["%s: %s" % (type(e).__name__, e)] * max(1, len(t["rows"])))
        t.setdefault("final", t["sig"][0])
    return t


def describe(tr, rec):
    i = rec["at"]
    return "%s %s n=%d day %s: signal %s, final %s, last rows %s %s" % (
        tr["name"], tr["p"], len(next(iter(tr["x"].values()))), i, tr["sig"][i - 1:i], tr["final"], tr["names"],
        [[str(num(v)) for v in r] for r in tr["rows"][max(0, i - 4):i]])


def run(prop):
    I.setup()
    c = Check(prop)
    fam = FAMILY[prop]
    model_and_replay(c, fam)
    names = sorted(n for n in families()[fam] if n in catalog())
    per = int(os.environ.get("PER", 60 if not thorough() else 400))
    traces = pmap(record, gen(prop, names, per), chunksize=2)
    fired = {}
    for t in traces:
        f = fired.setdefault(t["name"], {"buy": 0, "sell": 0, "hold": 0})
        for s in t["sig"]:
            f[s] = f.get(s, 0) + 1
    c.note("recorded_signals", fired)
    validate(c, "TrSignals", traces, [], {"signal", "final"}, describe, chunk=1500, heap="6g")
    return c
