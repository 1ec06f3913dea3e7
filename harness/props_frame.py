"""C10, C11, C13: input frames, bound to spec/Frame.tla."""
from common import *
import indicators as I
import market
import props_ind

SPELL = {"lower": str.lower, "upper": str.upper, "title": str.title}


def setup():
    I.setup()
    global pd, np
    pd, np = I.pd, I.np


def stamp(day, style="irregular"):
    base = pd.Timestamp("2019-12-28")
    if style == "intraday":
        return pd.Timestamp("2020-02-28 09:30") + pd.Timedelta(hours=7 * day, minutes=day % 3)
    if style == "old":
        return pd.Timestamp("1968-11-30") + pd.Timedelta(days=31 * day)
    if style == "daily":
        return base + pd.Timedelta(days=day)
    return base + pd.Timedelta(days=3 * day + (day % 2))


def extra(kind, n, k=0):
    """Content and label of a column that no indicator needs."""
    return {"number": ("adj close", [float(7 * i + 1) for i in range(n)]),
            "text": ("symbol", ["a%d" % i for i in range(n)]),
            "missing": ("sd", [math.nan] * n),
            "dates": ("date", [pd.Timestamp("2001-01-01")] * n),
            "number label": (7, [float(i) for i in range(n)]),
            "same label": ("MIXED", [float(i) for i in range(n)])}[kind]


def build_frame(f, style="irregular", name=None):
    """The DataFrame of a frame of the specification."""
    idx = pd.DatetimeIndex([stamp(d, style) for d in f["days"]], name=name)
    labels, cols = [], []
    for c in f["cols"]:
        if c["name"].startswith("*"):
            label, vals = extra(c["kind"], len(f["days"]))
            if c["spell"] != "lower" and isinstance(label, str):
                label = SPELL[c["spell"]](label)
            if c["kind"] == "same label":       # two columns equal but for their case
                labels.append(label)
                cols.append(pd.Series(vals, index=idx))
                label = label.swapcase()
        else:
            label, vals = SPELL[c["spell"]](c["name"]), [num(v) for v in c["vals"]]
            vals = I.stored(vals, c["kind"])
        labels.append(label)
        cols.append(pd.Series(vals, index=idx))
    df = pd.DataFrame(dict(enumerate(cols)), index=idx)
    df.columns = pd.Index(labels, dtype=object)
    return df


def canonical(f, x, cols, style="irregular"):
    return pd.DataFrame({c: [num(v) for v in x[c]] for c in cols}, index=pd.DatetimeIndex([stamp(d, style) for d in sorted(f["days"])]))


def col(name, vals):
    return {"name": name, "spell": "lower", "kind": "num", "vals": [rat(v) for v in vals]}


MARKET = {"open": (33, 45, 38, 44, 40), "high": (41, 47, 45, 52, 46), "low": (31, 37, 33, 43, 36), "close": (35, 43, 37, 51, 36),
          "volume": (800, 1700, 1100, 300, 2300)}


def cases(prop):
    day = [2, 3, 5, 9, 10]

    def case(i, names, n, depth, moves):
        return {"id": i, "required": list(names), "days": day[:n], "depth": depth, "moves": moves,
                "cols": [col(c, MARKET[c][:n]) for c in names]}
    five = ["open", "high", "low", "close", "volume"]
    t = thorough()
    if prop == "C10":
        return [case("five", five, 4, 4 if t else 3, ["row", "rotate", "column", "respell", "add"]),
                case("close", ["close"], 5 if t else 4, 12, ["row", "rotate", "respell"]),
                case("storage", five, 4, 4 if t else 2, ["store", "row", "missing"]),
                case("holes", ["high", "low", "close"], 4, 5 if t else 4, ["rotate", "row", "missing"])]
    return [case("close", ["close"], 5, 16, ["row", "missing"]),
            case("three", ["high", "low", "close"], 4 if t else 3, 15, ["rotate", "missing"]),
            case("five", five, 4, 4 if t else 3, ["rotate", "missing", "column"])]


# indicators that can be built from four days, with parameters under which they react to single values
def small_cases(cols, n):
    out = []
    for name in sorted(catalog()):
        if not set(catalog()[name]["inputs"]) <= set(cols):
            continue
        for v in (1, 2):
            p = defaults(name)
            for q in catalog()[name]["params"]:
                if q["kind"] == "int":
                    p[q["name"]] = max(q["min"], v)
            if name == "PriceOscillator":
                p.update(long_ma=v + 1)
            if name == "VolumeOscillator":
                p.update(long_period=v + 1)
            if I.min_rows(name, p) <= n and (name, p) not in out:
                out.append((name, p))
    return out


REVEAL = {"MovingAverage": lambda x: {"ma-simple": x["close"]},
          "WeightedClose": lambda x: {"wc": [rat((num(h) + num(l) + 2 * num(c)) / 4) for h, l, c in zip(x["high"], x["low"], x["close"])]},
          "Qstick": lambda x: {"qstick": [rat(num(c) - num(o)) for o, c in zip(x["open"], x["close"])]}}


def text(df):
    return json.dumps([[str(c) for c in df.columns], [str(i) for i in df.index], I.rows_of(df)])


def results(name, p, df, fill, close=None, deep=False):
    """Everything observable of an indicator, as texts."""
    obj = I.construct(name, p, df, fill)
    d = obj.getTiData()
    r = {"data": text(d), "signal": str(obj.getTiSignal()), "value": str([rat(v) for v in obj.getTiValue() or []])}
    if deep and close is not None:
        s = obj.getTiSimulation(close)
        r["simulation"] = text(s[0]) + json.dumps({k: rat(v) for k, v in s[1].items()})
        I.plt.close("all")
    return r, d


def replay_frame(job):
    k, b, deep = job
    f = b["f"]
    names = sorted(b["filled"])
    n = len(f["days"])
    pool = small_cases(names, n)
    df0 = build_frame(f)
    bad, m = [], 0
    reveal = [x for x in pool if x[0] in REVEAL and x[1].get("period", 1) == 1]
    step = 3 if len(pool) > 6 else len(pool)
    chosen = reveal + [pool[(k * step + j) % len(pool)] for j in range(step)]
    has_holes = b["filled"] != b["unfilled"]
    for name, p in chosen:
        cols = catalog()[name]["inputs"]
        for fill in ((True, False) if has_holes else (bool(k % 2),)):
            x = b["filled"] if fill else b["unfilled"]
            can = canonical(f, x, cols)
            sim = deep and (k + 7 * len(name)) % 60 == 0 and "close" in names
            try:
                want, _ = results(name, p, can, fill, canonical(f, b["filled"], ["close"]) if sim else None, sim)
            except Exception as e:
                want = {"error": type(e).__name__}
            try:
                got, d = results(name, p, df0.copy(), fill, df0.copy() if sim else None, sim)
            except Exception as e:
                got = {"error": "%s" % type(e).__name__}
                d = None
            m += 1
            if got != want:
                bad.append((name, p, fill, [q for q in set(got) | set(want) if got.get(q) != want.get(q)], got, want))
            if d is not None and name in REVEAL and p.get("period", 1) == 1:
                for cname, vals in REVEAL[name](x).items():
                    if [rat(v) for v in d[cname].tolist()] != [rat(num(v)) for v in vals]:
                        bad.append((name, p, fill, ["values"], d[cname].tolist(), vals))
    return bad, m


def model_and_replay(c, prop):
    cs = cases(prop)
    path = os.path.join(scratch(), "frames.json")
    with open(path, "w") as f:
        json.dump(cs, f)
    r = tlc_model("MCFrame", "SPECIFICATION Spec\nINVARIANTS InvFill InvShape\nPROPERTY PropReorder\nVIEW View\nCHECK_DEADLOCK FALSE\n",
                  env={"FRAMES": path}, workers=1, heap="4g")
    c.add(r)
    reps = sorted(r.replays(), key=lambda b: json.dumps(b, sort_keys=True))
    jobs = [(k, b, True) for k, b in enumerate(reps)]
    n = 0
    for (k, b, _), (bad, m) in zip(jobs, pmap(replay_frame, jobs, chunksize=20)):
        n += m
        for name, p, fill, what, got, want in bad:
            c.violation("%s %s fill=%s of frame days %s columns %s: %s differ from the indicator of the normalised data" % (
                name, p, fill, b["f"]["days"], [(q["name"], q["spell"], q["vals"]) for q in b["f"]["cols"]], what),
                {"frame": b["f"], "indicator": name, "parameters": p, "fill": fill, "got": got, "expected": want})
    c.traces += n
    c.note("frames_replayed", len(reps))
    c.note("frames_by_case", {x["id"]: sum(b["id"] == x["id"] for b in reps) for x in cs})
    c.sample({"frame": reps[len(reps) // 2]}, 1)


# ------------------------------------------------------------ recorded traces of all indicators
def scramble(r, x, cols, with_extra=True, reorder=True):
    """A frame of the specification holding the data x (in date order) in disorder."""
    n = len(x[cols[0]])
    order = list(range(n))
    if reorder:
        how = r.choice(["shuffle", "shuffle", "reverse", "rotate", "sorted", "last"])
        if how == "shuffle":
            r.shuffle(order)
        elif how == "reverse":
            order.reverse()
        elif how == "rotate":
            k = r.randrange(n)
            order = order[k:] + order[:k]
        elif how == "last" and n > 1:
            order = [order[-1]] + order[:-1]
    days = sorted(r.sample(range(1, 3 * n + 2), n))
    fc = []
    names = list(cols)
    if with_extra:
        names += [c for c in market.COLUMNS if c not in cols and r.random() < 0.5]
    if reorder:
        r.shuffle(names)
    for c in names:
        fc.append({"name": c, "spell": r.choice(["lower", "lower", "upper", "title"]) if reorder else "lower",
                   "kind": r.choice(sorted(I.STORAGE)) if reorder and r.random() < 0.3 else "num",
                   "vals": [rat(x[c][i]) for i in order]})
    if with_extra:
        for kind in r.sample(["number", "text", "missing", "dates", "number label", "same label"], r.randint(0, 3)):
            fc.insert(r.randint(0, len(fc)), {"name": "*" + kind, "spell": "lower", "kind": kind, "vals": ["0"] * n})
    return {"days": [days[i] for i in order], "cols": fc}


def fill_canonical(f, name, fill, style):
    """The normalised data as a frame (built independently of the library)."""
    cols = catalog()[name]["inputs"]
    order = sorted(range(len(f["days"])), key=lambda i: f["days"][i])
    x = {}
    for c in cols:
        vals = next(q["vals"] for q in f["cols"] if q["name"] == c)
        v = [vals[i] for i in order]
        if fill:
            last = None
            for i in range(len(v)):
                if v[i] == "nan" and last is not None:
                    v[i] = last
                elif v[i] != "nan":
                    last = v[i]
            nxt = None
            for i in reversed(range(len(v))):
                if v[i] == "nan" and nxt is not None:
                    v[i] = nxt
                elif v[i] != "nan":
                    nxt = v[i]
        x[c] = v
    return canonical(f, x, cols, style)


def record(job):
    prop, name, k = job
    r = rng("frame", prop, name, k)
    p = defaults(name) if k % 4 == 0 else I.params(r, name)
    lo, w = I.min_rows(name, p), I.warmup(name, p)
    n = max(lo, 2, r.choice([lo, w + 3, w + r.randint(4, 20)]))
    long_gap = prop == "C11" and k % 8 == 5
    if long_gap:
        n += r.randint(40, 75)
    cols = catalog()[name]["inputs"]
    x = market.vary(r, market.bars(r, n), name)
    fill = True
    if prop == "C11" or k % 2:
        holed = market.holes(r, x, cols, r.choice([0.1, 0.3, 0.6]))
        if long_gap:        # weeks without a quote
            a, m = r.randint(0, n - 36), r.choice([31, 35, 40, 62, 90])
            for c in r.sample(cols, r.randint(1, len(cols))):
                b = a + r.randint(0, 3)
                holed[c] = [math.nan if b <= i < b + m else v for i, v in enumerate(x[c])]
        x = dict(x, **holed)
        if "volume" in cols and r.random() < 0.3:       # no trade is not a missing volume
            x["volume"] = [0.0 if v == v and r.random() < 0.3 else v for v in x["volume"]]
        fill = r.random() < 0.5
    f = scramble(r, x, cols, prop == "C10", prop == "C10" or r.random() < 0.5)
    style = r.choice(["irregular", "intraday", "old", "daily"])
    t = {"id": "%s-%s-%d" % (prop, name, k), "name": name, "p": dict(p, none=0), "fill": fill, "error": "", "pre": [],
         "valid": False, "frame": f, "x": {"none": []}, "twins": []}
    raw = build_frame(f, style, r.choice([None, "Date"]))
    try:
        obj = I.construct(name, p, raw.copy(), fill)
        d = obj.getTiData()
        t["names"], t["rows"] = [str(c) for c in d.columns], I.rows_of(d)
        days = pd.DatetimeIndex([stamp(i, style) for i in sorted(f["days"])])
        t["index"] = bool(d.index.equals(days[:len(d)]))
        deep = k % 3 == 0 and n < 90
        can = fill_canonical(f, name, fill, style)
        close = pd.DataFrame({"close": [float(10 + i % 7) for i in range(n)]}, index=can.index)
        order = list(range(n))
        r.shuffle(order)
        close2 = pd.DataFrame({"x": "t", "CLOSE": close["close"]}, index=can.index).iloc[order]
        a, _ = results(name, p, raw, fill, close2, deep)
        b, _ = results(name, p, can, fill, close, deep)
        t["twins"] = [{"kind": q, "a": a[q], "b": b[q]} for q in a]
    except Exception as e:
        t.setdefault("names", ["error"])
        t.setdefault("rows", [])
        t.update(index=False, error="%s: %s" % (type(e).__name__, e))
    return t


def describe(tr, rec):
    i = rec["at"]
    return "%s %s fill=%s n=%d day %s observed %s %s" % (
        tr["name"], tr["p"], tr["fill"], len(tr["frame"]["days"]), i,
        dict(zip(tr["names"], tr["rows"][i - 1])) if 0 < i <= len(tr["rows"]) else tr["names"], tr["error"])


# --------------------------------------------------------------------- C13
def malformed(b):
    """The Python value of an input description of MCInput."""
    n = b["rows"]
    idx = {"dates": lambda: pd.date_range("2020-01-01", periods=n), "range": lambda: pd.RangeIndex(n),
           "strings": lambda: pd.Index(["2020-01-%02d" % (i % 28 + 1) for i in range(n)]),
           "integers": lambda: pd.Index([20200101 + i for i in range(n)]),
           "periods": lambda: pd.period_range("2020-01-01", periods=n, freq="D"),
           "date objects": lambda: pd.Index([d.date() for d in pd.date_range("2020-01-01", periods=n)], dtype=object),
           "durations": lambda: pd.timedelta_range("1 day", periods=n)}[b["index"]]()
    cols = {}
    for c in sorted(b["kinds"]):
        if c == "none":
            continue
        kind = b["kinds"][c]
        base = [float(MARKET.get(c, MARKET["close"])[i % 5] + i % 4) for i in range(n)]
        if kind in I.STORAGE:
            cols[c] = I.stored([float(v % 200) for v in base], kind)
            continue
        cols[c] = {"num": lambda: base, "text": lambda: ["%s" % v for v in base],
                   "object": lambda: np.array(base, dtype=object), "mixed": lambda: np.array([("x" if i == n - 1 else v) for i, v in enumerate(base)], dtype=object),
                   "dates": lambda: pd.date_range("2001-01-01", periods=n), "category": lambda: pd.Categorical(["%s" % v for v in base]),
                   "missing": lambda: [math.nan] * n}[kind]()
    df = pd.DataFrame({c: pd.Series(v, index=idx) for c, v in cols.items()}, index=idx)
    t = b["type"]
    if t == "frame":
        return df
    return {"none": lambda: None, "list": lambda: df.values.tolist(), "dict": lambda: {c: list(v) for c, v in cols.items()},
            "series": lambda: df.iloc[:, 0] if cols else pd.Series(dtype=float), "array": lambda: df.to_numpy(),
            "text": lambda: "close", "class": lambda: pd.DataFrame, "empty list": lambda: [], "empty text": lambda: "",
            "empty dict": lambda: {}, "zero": lambda: 0, "empty series": lambda: pd.Series(dtype=float, index=idx[:0])}[t]()


FLAGS = {"True": True, "False": False, "none": None, "one": 1, "zero": 0, "text": "True", "float": 1.0, "list": [True], "empty text": "",
         "empty list": [], "zero float": 0.0, "minus one": -1, "nan": math.nan}


def replay_input(b):
    kw = {} if b["flag"] == "omitted" else {"fill_missing_values": FLAGS[b["flag"]]}
    try:
        I.cls(b["name"])(malformed(b), **kw)
        got = "ok"
    except Exception as e:
        got = type(e).__name__
    return [] if got in b["outcomes"] else ["outcome %s, allowed %s" % (got, b["outcomes"])]


def run_input(c):
    r = tlc_model("MCInput", "SPECIFICATION Spec\nINVARIANTS InvOutcome InvExtra\nCHECK_DEADLOCK FALSE\n")
    c.add(r)
    reps = sorted(r.replays(), key=lambda b: json.dumps(b, sort_keys=True))
    outs = {}
    for b, res in zip(reps, pmap(replay_input, reps, chunksize=40)):
        for o in b["outcomes"]:
            outs[o] = outs.get(o, 0) + 1
        for what in res:
            c.violation("%s: input %s: %s" % (b["name"], {k: b[k] for k in ("type", "index", "rows", "kinds", "flag")}, what),
                        {"call": b, "what": what})
    c.traces += len(reps)
    c.note("calls_replayed", len(reps))
    c.note("expected_outcomes", outs)
    c.sample({"call": reps[len(reps) // 2]}, 1)


def run(prop):
    setup()
    c = Check(prop)
    if prop == "C13":
        run_input(c)
        return c
    model_and_replay(c, prop)
    per = int(os.environ.get("PER", 16 if not thorough() else 120))
    traces = pmap(record, [(prop, n, k) for n in sorted(catalog()) for k in range(per)], chunksize=2)
    validate(c, "TrIndicators", traces, [], {"value", "missing", "columns", "rows", "index", "data", "signal", "simulation"},
             describe, chunk=1500, heap="6g")
    return c
