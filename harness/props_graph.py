"""C28, C29: graphs, bound to spec/Graph.tla."""
from common import *
import indicators as I
import market
import graphs
import props_frame as F
import props_life as L

ORIGIN = "1960-01-01"


def instant(v):
    """Minutes since the origin."""
    return int(round((I.pd.Timestamp(v) - I.pd.Timestamp(ORIGIN)).total_seconds() / 60))


def fig_of(figure, dates):
    """A figure of the specification: instants (or numbers) and rational values."""
    import matplotlib.dates as mdates
    g = graphs.read(figure)
    base = float(mdates.date2num(I.np.datetime64(ORIGIN)))
    panels = []
    for p in g["panels"]:
        lines = []
        for ln in p["lines"]:
            xs = [int(round((v - base) * 1440)) if dates else (int(v) if float(v).is_integer() else -1) for v in ln["x"]]
            lines.append({"label": ln["label"], "x": xs, "y": ln["y"]})
        panels.append(lines)
    return {"title": g["title"], "ylabel": g["ylabel"], "xlabel": g["panels"][-1]["xlabel"] if g["panels"] else "", "panels": panels}


def column(d, c):
    return [rat(v) for v in d[c].tolist()]


def build(r, name, p, mode, n):
    """(df, x in date order, fill) of a data mode."""
    cols = catalog()[name]["inputs"]
    x = market.bars(r, n, r.choice(["rough", "mixed", "flat"]))
    x = {c: x[c] for c in cols}
    if mode == "holes":
        x = market.holes(r, x, cols, 0.2)
    elif mode == "missing":
        for c in cols:
            x[c] = [math.nan] * n
    elif mode == "odd":
        x = L.odd(r, x, cols)
    style = r.choice(["irregular", "intraday", "old", "daily"])
    days = sorted(r.sample(range(1, 2 * n + 3), n))
    idx = I.pd.DatetimeIndex([F.stamp(d, style) for d in days], name=r.choice([None, "Date"]))
    df = I.pd.DataFrame(x, index=idx)
    if mode in ("shuffled", "holes") and r.random() < 0.7:
        order = list(range(n))
        r.shuffle(order)
        df = df.iloc[order]
        df.columns = [c.title() for c in df.columns]
        df["Symbol"] = "t"
    return df, x, idx


def record(job):
    prop, name, k = job
    r = rng("graph", prop, name, k)
    p = defaults(name) if k % 3 == 0 else I.params(r, name)
    lo, w = I.min_rows(name, p), I.warmup(name, p)
    mode = ["clean", "holes", "shuffled", "holes", "missing", "short"][k % 6]
    n = lo if mode == "short" else max(lo, min(w, 70) + r.randint(1, 8))
    fill = r.random() < 0.5
    df, x, idx = build(r, name, p, mode, n)
    t = {"id": "%s-%s-%d" % (prop, name, k), "name": name, "p": dict(p, none=0), "fill": fill, "mode": mode,
         "x": {c: [rat(v) for v in x[c]] for c in x}, "days": [instant(i) for i in idx], "figs": [], "untouched": True}
    plt = I.plt
    plt.close("all")
    obj = I.construct(name, p, df.copy(), fill)
    before = F.text(obj.getTiData())
    d = obj.getTiData()
    t["names"] = [str(c) for c in d.columns]
    t["cols"] = [column(d, c) for c in d.columns]
    plan = ["graph", "graph", "simulation"] if prop == "C28" and k % 3 == 0 else ["graph"] if prop == "C28" else (
        ["simulation", "simulation", "graph"] if k % 3 == 0 else ["simulation"])
    if prop == "C28" and k % 6 == 3:
        plan = ["simulation", "graph"]
    drawn = []
    for what in plan:
        f = {"kind": what, "error": "", "stock": [], "exposure": [], "balance": []}
        try:
            if what == "graph":
                g = obj.getTiGraph()
            else:
                prices = [float(r.randint(8, 60)) / 4 for _ in range(n)]
                close = I.pd.DataFrame({"close": prices}, index=idx)
                if mode == "holes":
                    close.iloc[r.randrange(n), 0] = math.nan
                before_c = F.text(close)
                s, st, g = obj.getTiSimulation(close, max_exposure=r.choice([None, 20, 60.5]), short_exposure_factor=r.choice([1.0, 1.5, 2]))
                f.update(stock=column(s, "stock_value"), exposure=column(s, "exposure"), balance=column(s, "balance"))
                f["sim"] = s
                f["text"] = F.text(s)
                t["untouched"] &= F.text(close) == before_c
            fig = g.gcf()
            drawn.append((f, fig))
        except Exception as e:
            f["error"] = "%s: %s" % (type(e).__name__, str(e)[:120])
            f["fig"] = {"title": "", "ylabel": "", "xlabel": "", "panels": []}
        t["figs"].append(f)
    for f, fig in drawn:                    # read after everything was drawn
        f["fig"] = fig_of(fig, f["kind"] == "graph")
    t["untouched"] &= len({id(fig) for _, fig in drawn}) == len(drawn) and F.text(obj.getTiData()) == before
    for f in t["figs"]:
        if "sim" in f:
            t["untouched"] &= F.text(f.pop("sim")) == f.pop("text")
    plt.close("all")
    return t


def describe(tr, rec):
    f = tr["figs"][rec["at"] - 1] if rec["at"] else {"kind": "", "error": "", "fig": {}}
    return "%s %s fill=%s %s: %s %s %s" % (tr["name"], tr["p"], tr["fill"], tr["mode"], f["kind"], f["error"],
        json.dumps({k: (v if k != "panels" else [[(q["label"], len(q["x"])) for q in p] for p in v]) for k, v in f["fig"].items()}))


# ------------------------------------------------------------------------------ sequences of drawings
PAIRS = [("MovingAverage", "RelativeStrengthIndex"), ("MassIndex", "MedianPrice"), ("EaseOfMovement", "DetrendedPriceOscillator"),
         ("IchimokuCloud", "StochasticOscillator"), ("DirectionalMovementIndex", "DirectionalMovementIndex"), ("BollingerBands", "OnBalanceVolume")]


def replay(job):
    """The figures of a sequence must be what separate drawing gives."""
    k, b = job
    plt = I.plt
    names = dict(zip("ab", PAIRS[k % len(PAIRS)]))
    r = rng("drawings", k % 36)
    objs, closes = {}, {}
    for q, name in names.items():
        p = I.params(r, name)
        n = max(I.min_rows(name, p), min(40, I.warmup(name, p))) + 3
        df, _, idx = build(r, name, p, "clean", n)
        objs[q] = I.construct(name, p, df)
        closes[q] = I.pd.DataFrame({"close": [float(r.randint(8, 60)) / 4 for _ in range(n)]}, index=idx)

    def call(q, what):
        if what == "graph":
            return objs[q].getTiGraph()
        if what == "signal":
            objs[q].getTiSignal()
            return None
        kw = {"max_exposure": 30} if what.endswith("cap") else {}
        return objs[q].getTiSimulation(closes[q], **kw)[2]

    def alone(q, what):
        plt.close("all")
        g = call(q, what)
        t = json.dumps(fig_of(g.gcf(), what == "graph"))
        plt.close("all")
        return t
    wanted = {(s["of"], s["what"]): None for s in b["figures"]}
    for key in wanted:
        wanted[key] = alone(*key)
    plt.close("all")
    out, figs = [], []
    for s in b["log"]:
        n0 = len(plt.get_fignums())
        g = call(s["k"], s["do"])
        if g is not None:
            figs.append(g.gcf())
        if len(plt.get_fignums()) != n0 + (0 if g is None else 1):
            out.append("%s of %s changed the number of figures from %d to %d" % (s["do"], names[s["k"]], n0, len(plt.get_fignums())))
    for i, (f, s) in enumerate(zip(figs, b["figures"])):
        if json.dumps(fig_of(f, s["what"] == "graph")) != wanted[(s["of"], s["what"])]:
            out.append("figure %d (%s of %s) differs from the one drawn alone" % (i + 1, s["what"], names[s["of"]]))
    if len(figs) != len(b["figures"]):
        out.append("%d figures, expected %d" % (len(figs), len(b["figures"])))
    plt.close("all")
    return names, out


def run(prop):
    F.setup()
    c = Check(prop)
    r = tlc_model("MCGraph", 'CONSTANTS Depth = %d Objects = {"a", "b"}\nSPECIFICATION Spec\nINVARIANT InvCount\nPROPERTIES PropKept PropLast\n'
                  "CHECK_DEADLOCK FALSE\n" % (3 if not thorough() else 4))
    c.add(r)
    kind = {"C28": {"graph"}, "C29": {"simulation", "simulation with cap"}}[prop]
    reps = [b for b in sorted(r.replays(), key=lambda b: json.dumps(b, sort_keys=True)) if any(s["what"] in kind for s in b["figures"])]
    for b, (names, bad) in zip(reps, pmap(replay, list(enumerate(reps)), chunksize=4)):
        if bad:
            c.violation("%s, drawings %s: %s" % (names, [(s["do"], s["k"]) for s in b["log"]], bad[0]), {"behaviour": b, "names": names, "differences": bad})
    c.traces += len(reps)
    c.note("drawing_sequences_replayed", len(reps))
    c.sample({"sequence": reps[len(reps) // 2]}, 1)
    per = int(os.environ.get("PER", {"C28": 36, "C29": 18}[prop] * (1 if not thorough() else 8)))
    traces = pmap(record, [(prop, n, k) for n in sorted(catalog()) for k in range(per)], chunksize=4)
    c.note("figures_recorded", sum(len(t["figs"]) for t in traces))
    pre = "graph-" if prop == "C28" else "simulation-"
    validate(c, "TrGraph", traces, [], lambda q: q.startswith(pre) or q == "data-changed", describe, chunk=1500, heap="6g")
    return c
