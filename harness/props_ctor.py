"""C14, C15: construction of indicators, bound to spec/Ctor.tla."""
from common import *
import indicators as I
import market
import props_sig

ERRORS = {"WrongTypeForInputParameter": "type", "WrongValueForInputParameter": "value", "NotEnoughInputData": "enough"}


def setup():
    I.setup()
    from tti.utils import exceptions as X
    global KIND
    KIND = {getattr(X, k): v for k, v in ERRORS.items()}


def pyarg(a):
    """Python value of an argument of the specification."""
    t, v = a["t"], a["v"]
    if t == "int":
        return int(v)
    if t == "float":
        return float("nan") if v == "nan" else float(Fraction(v))
    return {"str": lambda: v, "none": lambda: None, "list": lambda: [3], "dict": lambda: {}, "empty list": lambda: [],
            "tuple": lambda: (3,), "class": lambda: int, "bytes": lambda: b"3", "complex": lambda: 3 + 0j}[t]()


def outcome(exc):
    for k, v in KIND.items():
        if type(exc) is k:
            return v
    return "%s: %s" % (type(exc).__name__, exc)


FORMS = ("keyword", "reversed", "positional", "positional+fill", "mixed", "keyword+fill")


def spell(form, names, args):
    """Positional and keyword arguments of one way to write the call; None if the call cannot be written so."""
    given = [a["t"] != "omitted" for a in args]
    k = max([i + 1 for i, g in enumerate(given) if g] or [0])
    vals = [pyarg(a) if g else None for a, g in zip(args, given)]
    kw = {n: v for n, v, g in zip(names, vals, given) if g}
    if form == "keyword":
        return [], kw
    if form == "reversed":
        return [], dict(reversed(list(kw.items()))) if len(kw) > 1 else None
    if form == "keyword+fill":
        return [], dict({"fill_missing_values": True}, **kw)
    if form == "mixed":     # first ones by position
        m = 0
        while m < len(given) and given[m]:
            m += 1
        if m == 0 or k == m:
            return None
        return vals[:m], {n: v for n, v, g in list(zip(names, vals, given))[m:] if g}
    if not all(given[:k]):
        return None
    if form == "positional":
        return (vals[:k], {}) if k else None
    if not all(given):
        return None
    return vals + [True], {}


def build(name, names, args, form, df):
    s = spell(form, names, args)
    if s is None or s[1] is None:
        return None
    try:
        return "ok", I.cls(name)(df, *s[0], **s[1])
    except Exception as e:
        return outcome(e), None


_data = {}


def data(name, rows, kind):
    key = (name, rows, kind)
    if key not in _data:
        r = rng("ctor", *key)
        x = market.bars(r, rows, {"bars": "rough", "holes": "rough"}.get(kind, "mixed"))
        cols = catalog()[name]["inputs"]
        if kind == "flat":
            x = {c: [x[c][0]] * rows for c in cols}
        elif kind == "zero volume":
            x = dict(x, volume=[0.0] * rows)
        elif kind == "integers":
            x = {c: [int(v * 4) for v in x[c]] for c in cols}
        elif kind in ("holes", "unfilled holes"):
            x = market.holes(r, x, cols, 0.3)
        elif kind == "falling":
            x = {c: [float(1000 - 3 * i + {"high": 2, "low": -2}.get(c, 0)) for i in range(rows)] for c in cols}
        elif kind == "negative":
            x = {c: [v if c == "volume" else -v for v in x[c]] for c in cols}
        _data[key] = x
    return _data[key]


def same(a, b):
    return list(a.columns) == list(b.columns) and a.index.equals(b.index) and a.equals(b)


def replay_args(call):
    """One call of the specification in all its spellings; differences and, when accepted, traces."""
    name, args = call["name"], call["args"]
    names = [q["name"] for q in catalog()[name]["params"]]
    x = data(name, call["rows"], "bars")
    df = I.frame(x, catalog()[name]["inputs"])
    bad, n, tr = [], 0, []
    objs = {}
    for form in FORMS:
        b = build(name, names, args, form, df)
        if b is None:
            continue
        n += 1
        if b[0] not in call["outcomes"]:
            bad.append("%s: outcome %s, allowed %s" % (form, b[0], call["outcomes"]))
        elif b[0] == "ok":
            objs[form] = b[1]
    first = None
    for form, o in objs.items():
        if first is None:
            first = o
            d = o.getTiData()
            p = {k: v for k, v in call["p"].items() if k != "none"}
            tr.append({"id": "", "name": name, "p": dict(p, none=0), "fill": True, "error": form, "pre": [], "valid": True,
                       "x": {c: [rat(v) for v in x[c]] for c in catalog()[name]["inputs"]},
                       "names": [str(c) for c in d.columns], "rows": I.rows_of(d), "index": bool(d.index.equals(df.index[:len(d)]))})
        elif not same(o.getTiData(), first.getTiData()) or o.getTiSignal() != first.getTiSignal():
            bad.append("%s and %s give different indicators" % (form, list(objs)[0]))
    return bad, n, tr


def signal_case(job):
    """Signals of an object whose parameters were given in one spelling."""
    k, call, form = job
    name, args = call["name"], call["args"]
    names = [q["name"] for q in catalog()[name]["params"]]
    p = {a: b for a, b in call["p"].items() if a != "none"}
    lo, w = I.min_rows(name, p), I.warmup(name, p)
    if max(lo, w) > 200:
        return None
    r = rng("ctorsig", k)
    n = max(lo, 2, w + r.randint(4, 30))
    x = market.bars(r, n, "rough")
    df = I.frame(x, catalog()[name]["inputs"])
    b = build(name, names, args, form, df)
    if b is None or b[1] is None:
        return None
    t = {"id": "sig-%d-%s" % (k, form), "name": name, "p": dict(p, none=0), "from": 1, "fill": True,
         "x": {c: [rat(v) for v in x[c]] for c in catalog()[name]["inputs"]}}
    try:
        obj = b[1]
        d = obj.getTiData()
        t["names"], t["rows"] = [str(c) for c in d.columns], I.rows_of(d)
        t["final"] = obj.getTiSignal()[0]
        sim = obj.getTiSimulation(I.pd.DataFrame({"close": [10.0] * len(df)}, index=df.index))[0]
        t["sig"] = [str(v) for v in sim["signal"].tolist()][:len(d)]
        I.plt.close("all")
    except Exception as e:
        t.setdefault("names", ["error"])
        t.setdefault("rows", [])
        t.update(sig=["%s: %s" % (type(e).__name__, e)] * max(1, len(t["rows"])))
        t.setdefault("final", t["sig"][0])
    return t


def replay_rows(job):
    call, kind = job
    name, args = call["name"], call["args"]
    names = [q["name"] for q in catalog()[name]["params"]]
    df = I.frame(data(name, call["rows"], kind), catalog()[name]["inputs"])
    form = "keyword"
    fill = kind != "unfilled holes"
    s = spell(form, names, args)
    try:
        kw = dict(s[1])
        if not fill:
            kw["fill_missing_values"] = False
        I.cls(name)(df, **kw)
        got = "ok"
    except Exception as e:
        got = outcome(e)
    return [] if got in call["outcomes"] else ["outcome %s, allowed %s" % (got, call["outcomes"])]


def model(c, mode):
    r = tlc_model("MCCtor", 'CONSTANT Mode = "%s"\nSPECIFICATION Spec\nINVARIANTS InvDefaults InvOutcome InvObject InvMonotone '
                  "InvRows\nCHECK_DEADLOCK FALSE\n" % mode)
    c.add(r)
    return sorted(r.replays(), key=lambda b: json.dumps(b, sort_keys=True))


def show(call):
    names = [q["name"] for q in catalog()[call["name"]]["params"]]
    return "%s(%s) with %d rows" % (call["name"], ", ".join(
        "%s=%r" % (n, pyarg(a)) for n, a in zip(names, call["args"]) if a["t"] != "omitted"), call["rows"])


def run(prop):
    setup()
    c = Check(prop)
    if prop == "C15":
        calls = model(c, "rows")
        kinds = ["bars", "flat", "zero volume", "integers", "holes", "unfilled holes", "falling", "negative"]
        jobs = []
        for i, call in enumerate(calls):
            exact = call["outcomes"] == ["enough"] or thorough()
            for j, kind in enumerate(kinds):
                if exact or j == 0 or (i + j) % 4 == 0:
                    jobs.append((call, kind))
        by = {}
        for (call, kind), res in zip(jobs, pmap(replay_rows, jobs, chunksize=40)):
            by[kind] = by.get(kind, 0) + 1
            for what in res:
                c.violation("%s (%s data): %s" % (show(call), kind, what), {"call": call, "data": kind, "what": what})
        c.traces += len(jobs)
        c.note("calls_replayed", len(jobs))
        c.note("by_kind_of_data", by)
        c.sample({"call": calls[len(calls) // 2]}, 1)
        return c
    calls = model(c, "args")
    traces, outs, n = [], {}, 0
    for i, (call, (bad, k, tr)) in enumerate(zip(calls, pmap(replay_args, calls, chunksize=8))):
        n += k
        for o in call["outcomes"]:
            outs[o] = outs.get(o, 0) + 1
        for what in bad:
            c.violation("%s: %s" % (show(call), what), {"call": call, "what": what})
        for t in tr:
            t["id"] = "call-%d" % i
            traces.append(t)
    c.traces += n
    c.note("calls_replayed", n)
    c.note("expected_outcomes", outs)
    c.sample({"call": calls[len(calls) // 3]}, 1)
    # accepted calls mean the documented parameters: their data and signals are those of the definitions
    validate(c, "TrIndicators", traces, [], {"value", "missing", "columns", "rows", "index"},
             lambda tr, rec: "%s with effective parameters %s (%s)" % (tr["name"], tr["p"], tr["error"]), chunk=1500, heap="6g")
    ok = [x for x in calls if x["outcomes"] == ["ok"]]
    jobs = [(k, call, form) for k, call in enumerate(ok) for form in (FORMS if thorough() else FORMS[:1] + FORMS[2:3])
            if thorough() or (k + len(form)) % 2 == 0 or call["name"] in ("MedianPrice", "TypicalPrice", "Performance", "MovingAverage")]
    traces = [t for t in pmap(signal_case, jobs, chunksize=4) if t]
    c.note("signal_traces", len(traces))
    validate(c, "TrSignals", traces, [], {"signal", "final"}, props_sig.describe, chunk=1500, heap="6g")
    return c
