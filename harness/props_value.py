"""C09: values of a date, bound to spec/Value.tla."""
import datetime as dt
from common import *
import indicators as I
import market

ORIGIN = dt.datetime(2021, 3, 1)
FORMS = ["string", "string with time", "datetime", "Timestamp", "datetime64", "date", "slashes", "compact", "words", "iso T", "padded", "month", "year"]
NODATES = ["not a date", "", "2021-02-30", "2021-13-01", "17th", "close", object(), {}, b"2021-03-01", float("nan"), ["2021-03-01"],
           ("2021-03-01", "2021-03-02"), [], slice(None), lambda: 1, {"year": 2021}, ["2021-03-01", "x"], "NaT", "0", "yesterday-ish"]


def moment(minutes):
    return ORIGIN + dt.timedelta(minutes=minutes)


def asked(minutes, form):
    """The query value, or None when the form cannot express the instant."""
    m = moment(minutes)
    midnight = m.hour == m.minute == 0
    if form == "Timestamp":
        return I.pd.Timestamp(m)
    if form == "datetime":
        return m
    if form == "datetime64":
        return I.np.datetime64(m)
    if form == "string with time":
        return m.strftime("%Y-%m-%d %H:%M:%S")
    if form == "iso T":
        return m.strftime("%Y-%m-%dT%H:%M:%S")
    if not midnight or (form in ("month", "year") and m.day > 1) or (form == "year" and m.month > 1):
        return None
    return {"month": m.strftime("%Y-%m"), "year": m.strftime("%Y"),
            "string": m.strftime("%Y-%m-%d"), "date": m.date(), "slashes": m.strftime("%Y/%m/%d"), "compact": m.strftime("%Y%m%d"),
            "words": m.strftime("%B %d, %Y"), "padded": m.strftime(" %Y-%m-%d ").strip()}[form]


def query(obj, *value):
    """(tag, values) of getTiValue; with a value that is no list: its description."""
    try:
        v = obj.getTiValue(*value)
    except BaseException as e:
        return "raised %s" % type(e).__name__, []
    if v is None:
        return "None", []
    if type(v) is not list:
        return "returned %s" % type(v).__name__, []
    try:
        return "list", [rat(x) if isinstance(x, (int, float, I.np.number)) else "?" + str(x) for x in v]
    except Exception:
        return "returned " + repr(v)[:60], []


def minutes(index):
    return [int((i.to_pydatetime() - ORIGIN).total_seconds() // 60) for i in index]


def frame_at(x, cols, instants):
    return I.pd.DataFrame({c: x[c] for c in cols}, index=I.pd.DatetimeIndex([moment(m) for m in instants]))


def replay(job):
    """One set of instants of the model; expected rows are compared with getTiData."""
    b, k = job
    n = len(b["input"])
    if b["omitted"] == 0:
        name, p = [("MovingAverage", {"period": 1, "ma_type": "simple"}), ("Envelopes", {"period": 1, "shift": "1/10"}), ("FibonacciRetracement", {}),
                   ("OnBalanceVolume", {}), ("MedianPrice", {"period": 2}), ("IchimokuCloud", {}), ("SwingIndex", {})][k % 7]
    else:
        name, p = "DetrendedPriceOscillator", {"period": 1}
    r = rng("value", k)
    x = market.bars(r, n, "rough")
    obj = I.construct(name, p, frame_at(x, catalog()[name]["inputs"], b["input"]))
    data = I.rows_of(obj.getTiData())
    out = []
    forms = ["Timestamp", "month", FORMS[k % len(FORMS)], FORMS[(k // 7) % len(FORMS)]]
    for q in b["asked"]:
        if q["kind"] == "latest":
            tries = [(), (None,)]
        elif q["kind"] == "nodate":
            tries = [(v,) for v in NODATES]
        else:
            tries = [(v,) for v in [asked(q["at"], f) for f in forms] if v is not None]
        for v in tries:
            tag, got = query(obj, *v)
            want = data[q["row"] - 1] if 0 < q["row"] <= len(data) else None
            if (want is None and tag != "None") or (want is not None and (tag != "list" or got != want)) or q["row"] > len(data):
                out.append("getTiValue%r gave %s %s, expected %s" % (v, tag, got, want))
    return name, out


def record(job):
    name, k = job
    r = rng("value-trace", name, k)
    p = defaults(name) if k % 3 == 0 else I.params(r, name)
    n = max(I.min_rows(name, p), min(I.warmup(name, p), 80)) + r.randint(0, 8)
    x = market.bars(r, n, "rough")
    cols = catalog()[name]["inputs"]
    if k % 4 == 1:
        x = market.holes(r, {c: x[c] for c in cols}, cols)
    step = r.choice([1440, 1440, 1440 * 7, 60, 360])
    t0 = r.choice([0, 0, -1440 * 4, 570])
    pos, instants = t0, []
    for _ in range(n):
        instants.append(pos)
        pos += step * r.choice([1, 1, 1, 1, 3])
    span = (instants[0], instants[-1])
    order = list(range(n))
    if k % 2:
        r.shuffle(order)
    df = frame_at({c: [x[c][i] for i in order] for c in cols}, cols, [instants[i] for i in order])
    t = {"id": "%s-%d" % (name, k), "name": name, "p": dict(p, none=0), "input": [instants[i] for i in order], "error": ""}
    try:
        obj = I.construct(name, p, df, k % 4 != 1)
    except Exception as e:
        t["error"] = "%s: %s" % (type(e).__name__, e)
        return t
    d = obj.getTiData()
    t["at"], t["rows"], t["q"] = minutes(d.index), I.rows_of(d), []

    def ask(kind, at, form, *value):
        tag, got = query(obj, *value)
        t["q"].append({"kind": kind, "at": at, "form": form, "tag": tag, "got": got})
    ask("latest", 0, "no argument")
    ask("latest", 0, "None", None)
    near = set()
    for m in instants if n < 40 else instants[:6] + r.sample(instants, 15) + instants[-12:]:
        near |= {m, m + 1440, m - 1440, m - m % 1440, m + 1, m - 360}
    for m in list(near):            # a month or a year means its first instant
        d = moment(m)
        near |= {int((dt.datetime(d.year, k, 1) - ORIGIN).total_seconds() // 60) for k in {d.month, 1}}
    near |= {span[0] - step, span[1] + step, span[1] + 14400, 0, -10 ** 7, 10 ** 7}
    for m in sorted(near):
        forms = [r.choice(FORMS), "Timestamp"] if m in instants else [r.choice(FORMS[:5])]
        forms += [f for f in ("month", "year") if asked(m, f) is not None]
        for f in forms:
            v = asked(m, f)
            if v is None:
                f = "string with time"
                v = asked(m, f)
            ask("date", m, f, v)
    for v in r.sample(NODATES, 6):
        ask("nodate", 0, repr(v)[:30], v)
    return t


def describe(tr, rec):
    q = tr["q"][rec["at"] - 1] if rec["at"] else {}
    return "%s %s: query %s, data at that minute: %s" % (tr["name"], tr["p"], q, [r for a, r in zip(tr["at"], tr["rows"]) if a == q.get("at")])


def run(prop):
    I.setup()
    c = Check(prop)
    deep = thorough()
    r = tlc_model("MCValue", "CONSTANTS Grid = %s MaxRows = %d Omit = {0, 1}\nSPECIFICATION Spec\nINVARIANTS InvFound InvAscending\n"
                  "CHECK_DEADLOCK FALSE\n" % ("{0, 1, 2, 4, 8, 9}" if not deep else "{0, 1, 2, 3, 4, 8, 9, 12}", 4 if not deep else 5))
    c.add(r)
    reps = sorted(r.replays(), key=lambda b: json.dumps([b["input"], b["omitted"]]))
    for b, (name, bad) in zip(reps, pmap(replay, [(b, k) for k, b in enumerate(reps)])):
        if bad:
            c.violation("%s with rows at minutes %s: %s" % (name, b["input"], bad[0]), {"behaviour": b, "differences": bad[:5]})
    c.traces += len(reps)
    c.note("lookup_tables_replayed", len(reps))
    c.sample({"table": reps[len(reps) // 2]}, 1)
    per = int(os.environ.get("PER", 20 if not deep else 120))
    traces = pmap(record, [(n, k) for n in sorted(catalog()) for k in range(per)], chunksize=4)
    traces = [t for t in traces if not t["error"]]
    c.note("queries", sum(len(t["q"]) for t in traces))
    forms = {}
    for t in traces:
        for q in t["q"]:
            k = "%s %s" % (q["kind"], q["form"] if q["kind"] == "date" else "")
            forms[k] = forms.get(k, 0) + 1
    c.note("query_forms", forms)
    validate(c, "TrValue", traces, [], None, describe, chunk=1500, heap="6g")
    return c
