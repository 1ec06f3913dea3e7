"""C07, C08, C12: sequences of calls, bound to spec/Api.tla."""
import multiprocessing as mp
from common import *
import indicators as I
import market
import graphs
import props_frame

OPS_ALL = ["data", "value", "value of a day", "value of no day", "signal", "graph", "sim", "sim with cap", "sim on input frame"]
BAD_SIMS = ["sim refused value", "sim refused type", "sim refused frame", "sim interrupted", "sim interrupted late"]
CASES = ["same", "params", "data", "other", "fill"]
REFUSED = ["parameter", "rows", "column", "frame", "flag"]
RELATED = {"ForecastOscillator": "TimeSeriesForecast", "TimeSeriesForecast": "LinearRegressionSlope", "ChaikinOscillator": "AccumulationDistributionLine",
           "AccumulationDistributionLine": "ChaikinOscillator", "ProjectionOscillator": "ProjectionBands", "ProjectionBands": "ProjectionOscillator",
           "LinearRegressionSlope": "LinearRegressionIndicator", "LinearRegressionIndicator": "TimeSeriesForecast",
           "StandardDeviation": "BollingerBands", "BollingerBands": "StandardDeviation", "MovingAverage": "ChandeMomentumOscillator",
           "NegativeVolumeIndex": "PositiveVolumeIndex", "PositiveVolumeIndex": "NegativeVolumeIndex",
           "MedianPrice": "TypicalPrice", "TypicalPrice": "WeightedClose", "DoubleExponentialMovingAverage": "TripleExponentialMovingAverage"}
MODULES = {
    "C07": dict(depth=4, ops=["data", "signal", "graph", "sim", "sim with cap", "sim on input frame", "sim refused value",
                               "sim interrupted", "sim interrupted late"],
                cases=["same"], refused=[], frames=[], final=["data", "value", "value of a day", "signal", "graph", "sim", "sim with cap"]),
    "C08": dict(depth=3, ops=["data", "value", "value of a day", "value of no day", "signal", "graph", "sim", "sim with cap", "sim refused type", "sim interrupted"],
                cases=CASES, refused=REFUSED, frames=[], final=["data", "value", "value of a day", "signal", "sim"]),
    "C12": dict(depth=3, ops=["data", "signal", "graph", "sim", "sim with cap", "sim on input frame", "sim refused frame", "sim interrupted",
                               "value of a day"],
                cases=["same", "fill", "params"], refused=["rows"], frames=["F", "G"], final=["data", "value", "signal", "sim"]),
}


class Config:
    """One indicator with the frames of a caller; everything derived from (property, name, number)."""

    def __init__(self, prop, name, k):
        r = rng("api", prop, name, k)
        self.name, self.key = name, (prop, name, k)
        self.p = defaults(name) if k % 3 == 0 and I.min_rows(name, defaults(name)) < 31 else I.params(r, name)
        self.p2 = I.params(r, name)
        other = RELATED.get(name) if k % 2 else None
        self.other = other or r.choice([n for n in sorted(catalog()) if n != name and n not in ("KlingerOscillator",)])
        self.po = I.params(r, self.other)
        lo = max(I.min_rows(name, self.p), I.min_rows(name, self.p2), I.min_rows(self.other, self.po))
        self.n = max(lo, min(I.warmup(name, self.p), 90)) + r.randint(2, 6)
        if name in ("NegativeVolumeIndex", "PositiveVolumeIndex") and k % 2:
            self.n = 258                # their rules need an average over 255 days
        if name == "ChaikinOscillator" and k % 2:
            self.n = 96
        self.style = r.choice(["clean", "messy", "exact", "exact"])
        self.fill = r.random() < 0.6
        self.x, self.alt = market.bars(r, self.n, "rough"), market.bars(r, self.n, "rough")
        if k % 2:
            self.x, self.alt = market.vary(r, self.x, name), market.vary(r, self.alt, name)
        if r.random() < 0.3:        # days without any trade
            self.x["volume"] = [0.0 if r.random() < 0.3 else v for v in self.x["volume"]]
        self.holed = market.holes(r, self.x, market.COLUMNS, 0.1) if r.random() < 0.5 else self.x
        self.closes = [float(r.randint(20, 60)) / 4 for _ in range(self.n)]
        self.seed = r.randint(0, 10 ** 9)
        self.cap = r.choice([30, 55.5, 90])
        # the second frame: the same days, other days, fewer days, other days and instants; the third one likewise
        self.idx = I.pd.date_range("2022-01-03", periods=self.n, freq="D", name="Date")
        self.alt_idx = r.choice([self.idx, I.pd.date_range("2019-05-06 12:00", periods=self.n, freq="B", name="Date"),
                                 self.idx[:max(lo, self.n - 2)], I.pd.date_range("2022-01-04", periods=self.n, freq="D", name="Date")])
        self.other_idx = r.choice([self.idx, I.pd.date_range("2020-05-06", periods=self.n, freq="W"),
                                   self.idx[:max(lo, self.n - 1)]])

    def dates(self, case):
        return {"data": self.alt_idx, "other": self.other_idx}.get(case, self.idx)

    def aligned(self, close, case):
        """The caller's prices on the days of the object's data."""
        if self.dates(case) is self.idx:
            return close
        m = dict(zip(self.idx, self.dates(case)))
        out = close[[d in m for d in close.index]].copy()
        out.index = I.pd.DatetimeIndex([m[d] for d in out.index], name=close.index.name)
        return out

    def frame(self, x, idx=None):
        idx = self.idx if idx is None else idx
        x = {c: x[c][:len(idx)] for c in x}
        need = catalog()[self.name]["inputs"]
        if self.style == "exact":       # nothing the library would have to change
            return I.pd.DataFrame({c: x[c] for c in need}, index=idx)
        if self.style == "clean":
            return I.pd.DataFrame({c: x[c] for c in market.COLUMNS}, index=idx)
        rr = random.Random(self.seed)
        df = I.pd.DataFrame({c.upper() if i % 2 else c.title(): x[c] for i, c in enumerate(market.COLUMNS)}, index=idx)
        df.insert(2, "symbol", "t")
        df["Adj Close"] = 1.5
        order = list(range(len(idx)))
        rr.shuffle(order)
        return df.iloc[order].copy()

    def F(self, v):
        df = self.frame(self.holed)
        for i in range(v):
            modify(df, i)
        return df

    def alternative(self):
        return self.frame(self.alt, self.alt_idx)

    def full(self):
        """Data for indicators of another class."""
        return I.pd.DataFrame({c: self.x[c][:len(self.other_idx)] for c in market.COLUMNS}, index=self.other_idx)

    def G(self, v):
        idx = self.idx
        df = I.pd.DataFrame({"close": self.closes}, index=idx)
        if self.style == "messy":
            df = I.pd.DataFrame({"Note": "x", "Close": self.closes}, index=idx).iloc[::-1].copy()
        for i in range(v):
            modify(df, i)
        return df


def modify(df, i):
    """The caller changes its frame in place."""
    num_ = [c for c in df.columns if df[c].dtype.kind == "f"]
    if i % 3 == 0:
        for c in num_:
            df.loc[:, c] = (df[c] * 2 + 3).to_numpy()
        try:
            df.values[0, :] = df.values[-1, :]
        except ValueError:
            pass
        df.iloc[-1, df.columns.get_loc(num_[0])] = 77.25
    elif i % 3 == 1:
        for c in num_:
            a = df[c].to_numpy()
            if a.flags.writeable:
                a[:] = a[::-1].copy()
            df.loc[:, c] = a[::-1].copy() + 0.5
    else:
        df.columns = [str(c).swapcase() for c in df.columns]
        df.sort_index(ascending=False, inplace=True)


def interrupted(f, after):
    """Calls f and interrupts it (as Ctrl-C does) when the library has made a number of calls."""
    left = [after]

    def profile(frame, event, arg):
        if event == "call" and os.sep + "tti" + os.sep in frame.f_code.co_filename:
            left[0] -= 1
            if left[0] <= 0:
                sys.setprofile(None)
                raise KeyboardInterrupt
    sys.setprofile(profile)
    try:
        f()
    except KeyboardInterrupt:
        pass
    finally:
        sys.setprofile(None)


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.F, self.G, self.A, self.O = cfg.F(0), cfg.G(0), cfg.alternative(), cfg.full()
        self.objs, self.kept = {}, []

    def new(self, case):
        cfg = self.cfg
        cls = I.cls(cfg.name)
        if case in ("first", "same"):
            return cls(self.F, fill_missing_values=cfg.fill, **pyparams(cfg.name, cfg.p))
        if case == "params":
            return cls(self.F, fill_missing_values=cfg.fill, **pyparams(cfg.name, cfg.p2))
        if case == "data":
            return cls(self.A, fill_missing_values=cfg.fill, **pyparams(cfg.name, cfg.p))
        if case == "fill":
            return cls(self.F, fill_missing_values=not cfg.fill, **pyparams(cfg.name, cfg.p))
        return I.cls(cfg.other)(self.O, **pyparams(cfg.other, cfg.po))

    def refused(self, kind):
        cfg = self.cfg
        cls = I.cls(cfg.name)
        try:
            if kind == "parameter":
                q = catalog()[cfg.name]["params"]
                cls(self.F, **({q[0]["name"]: "bad" if q[0]["kind"] != "str" else 3} if q else {"fill_missing_values": 1}))
            elif kind == "rows":
                cls(self.F.iloc[:1], **pyparams(cfg.name, cfg.p))
            elif kind == "column":
                low = [c for c in self.F.columns if str(c).lower() in catalog()[cfg.name]["inputs"]]
                cls(self.F.drop(columns=low[0]), **pyparams(cfg.name, cfg.p))
            elif kind == "frame":
                cls(list(self.F.index), **pyparams(cfg.name, cfg.p))
            elif kind == "flag":
                cls(self.F, fill_missing_values="yes", **pyparams(cfg.name, cfg.p))
        except Exception:
            pass

    def call(self, obj, op, case):
        """The result of a call as text."""
        try:
            if op == "data":
                d = obj.getTiData()
                self.kept.append((d, props_frame.text(d)))
                return props_frame.text(d)
            if op == "value":
                return str([rat(v) for v in obj.getTiValue()])
            if op == "value of a day":
                return str([[rat(v) for v in obj.getTiValue(q) or ["None"]] for q in
                            (str(self.cfg.dates(case)[1]), self.cfg.dates(case)[self.cfg.n // 2])])
            if op == "value of no day":
                return str([obj.getTiValue(q) for q in ("2001-01-01", "no date", 17, I.pd.Timestamp("2022-01-04 10:00"))])
            if op == "signal":
                return str(obj.getTiSignal())
            if op == "graph":
                obj.getTiGraph()
                g = json.dumps(graphs.read())
                I.plt.close("all")
                return g
            close = {"sim on input frame": self.F}.get(op, self.G)
            kw = {"sim with cap": {"max_exposure": self.cfg.cap, "short_exposure_factor": 2}, "sim refused value": {"max_exposure": -1},
                  "sim refused type": {"short_exposure_factor": "x"}}.get(op, {})
            if op.startswith("sim interrupted"):
                close = self.cfg.aligned(close, case)
                at = random.Random(repr((self.cfg.key, op, len(self.kept)))).choice([2, 12, 20, 30, 50] if op == "sim interrupted" else [80, 120, 180, 250])
                interrupted(lambda: obj.getTiSimulation(close), at)
                I.plt.close("all")
                return "interrupted"
            if op == "sim refused frame":
                close = self.G.iloc[:-1]
            else:
                close = self.cfg.aligned(close, case)
            d, st, p = obj.getTiSimulation(close, **kw)
            t = props_frame.text(d)
            self.kept.append((d, t))
            self.kept.append((st, None))
            out = t + json.dumps({k: rat(v) for k, v in sorted(st.items())}) + json.dumps(graphs.read())
            I.plt.close("all")
            return out
        except Exception as e:
            I.plt.close("all")
            return "%s" % type(e).__name__

    def spoiled(self, fv, gv):
        """Frames of the caller that are not as the caller left them."""
        cfg, out = self.cfg, []
        for name, df, want in (("input frame", self.F, cfg.F(fv)), ("close prices", self.G, cfg.G(gv)),
                               ("other input frame", self.A, cfg.alternative()), ("third input frame", self.O, cfg.full())):
            try:
                I.pd.testing.assert_frame_equal(df, want, check_exact=True, check_freq=False)
                if list(df.columns) != list(want.columns) or df.index.name != want.index.name or df.columns.name != want.columns.name or df.attrs:
                    out.append(name)
            except AssertionError:
                out.append(name)
        return out

    def modify_results(self):
        """The caller works in the frames it was given."""
        for d, t in self.kept:
            if t is None:
                d.clear()
                continue
            for j, c in enumerate(d.columns):
                if d[c].dtype.kind == "f":
                    a = d[c].to_numpy()
                    if a.flags.writeable:
                        a[:] = 55.5
                for i in {0, len(d) // 2, len(d) - 1} if len(d) else ():
                    d.iat[i, j] = "none" if c in ("signal", "open_trading_action") else -3.25
            d.sort_index(ascending=False, inplace=True)
            if len(d) > 2:
                d.drop(index=d.index[1], inplace=True)
            d["more"] = 1.0
        self.kept = []

    def results_changed(self):
        return any(t is not None and props_frame.text(d) != t for d, t in self.kept)


def pristine(job):
    """The results of some calls, each on a fresh object; runs in a process of its own."""
    key, case, fv, gv, ops = job
    cfg = Config(*key)
    out = {}
    for op in ops:
        w = World(cfg)
        w.F = cfg.F(fv)
        try:
            o = w.new(case)
        except Exception as e:
            out[op] = "construction: %s" % type(e).__name__
            continue
        if op in ("sim on input frame",):
            w.F = cfg.F(gv)
        elif gv >= 0:
            w.G = cfg.G(gv)
        out[op] = w.call(o, op, case)
    return out


def tokens_of(hist):
    for s in hist["steps"]:
        for t in s["tok"]:
            if t["op"] != "new":
                yield t
    for k in hist["final"]:
        for t in hist["final"][k].values():
            yield t


def replay(job):
    key, hist, expected = job
    cfg = Config(*key)
    w = World(cfg)
    bad = []

    def expect(t):
        return expected[(t["case"], t["fv"], t["gv"], t["op"])]
    try:
        w.objs["a"] = w.new("first")
    except Exception as e:
        return ["construction failed: %s: %s" % (type(e).__name__, e)]
    fv = gv = 0
    done = []
    for s in hist["steps"]:
        what = s["do"]
        done.append(what if s["k"] == "a" or what.startswith(("mod", "ref")) else what + " (b)")
        if what == "new":
            try:
                w.objs["b"] = w.new(s["tok"][0]["case"])
                done[-1] = "new b: " + s["tok"][0]["case"]
            except Exception as e:
                w.objs["b"] = None
                done[-1] = "new b refused: %s" % e
        elif what.startswith("refused "):
            w.refused(what[8:])
        elif what == "modify results":
            w.modify_results()
        elif what.startswith("modify "):
            f = what[7:]
            modify(w.F if f == "F" else w.G, s["frames"][f] - 1)
        else:
            o = w.objs[s["k"]]
            got = w.call(o, what, s["tok"][0]["case"]) if o is not None else "construction"
            want = expect(s["tok"][0]) if what not in BAD_SIMS else None
            if want is not None and not (o is None and want.startswith("construction")) and got != want:
                bad.append("after %s: %s differs from the result of a fresh object" % (done[:-1], done[-1]))
        fv, gv = s["frames"]["F"], s["frames"]["G"]
        for name in w.spoiled(fv, gv):
            bad.append("after %s: the caller's %s has been modified" % (done, name))
        if bad:
            return bad
    # everything observable; and once more after the caller has worked in what was returned (Api!ModifyResults)
    for again in range(2 if key[0] == "C12" else 1):
        if again and not bad:
            w.modify_results()
            done.append("modify results")
        for k in sorted(hist["final"]):
            o = w.objs[k]
            for op in hist["final"][k]:
                want = expect(hist["final"][k][op])
                got = w.call(o, op, hist["final"][k][op]["case"]) if o is not None else "construction"
                if not (o is None and want.startswith("construction")) and got != want:
                    bad.append("after %s: %s of object %s differs from the result of a fresh object" % (done, op, k))
    for name in w.spoiled(fv, gv):
        bad.append("after %s and observing: the caller's %s has been modified" % (done, name))
    if w.results_changed():
        bad.append("after %s: a result returned earlier has changed" % done)
    return bad


def run(prop):
    I.setup()
    c = Check(prop)
    m = MODULES[prop]
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    r = tlc_model("MCApi", "CONSTANTS Depth = %d Ops = %s Cases = %s FinalOps = %s RefusedKinds = %s Frames = %s\nSPECIFICATION Spec\n"
                  "INVARIANTS TypeOK InvDetermined\nPROPERTY PropOwn\nCHECK_DEADLOCK FALSE\n"
                  % (m["depth"], q(m["ops"]), q(m["cases"]), q(m["final"]), q(m["refused"]), q(m["frames"])), heap="6g")
    c.add(r)
    hists = sorted(r.replays(), key=lambda b: json.dumps(b, sort_keys=True))
    total = len(hists)
    rr = rng("hist", prop)
    rr.shuffle(hists)
    names = sorted(catalog())
    want = int(os.environ.get("HISTORIES", 1400 if not thorough() else 12000))
    hists = (hists * (1 + want // max(1, len(hists))))[:want]
    per = 2 if not thorough() else 8
    jobs = [((prop, names[i % len(names)], (i // len(names)) % per), h) for i, h in enumerate(hists)]
    need = {}
    for key, h in jobs:
        for t in tokens_of(h):
            if t["op"] in BAD_SIMS:
                continue
            need.setdefault((key, t["case"], t["fv"], t["gv"]), set()).add(t["op"])
    tasks = []
    for (key, case, fv, gv), ops in sorted(need.items()):
        for op in (sorted(ops) if gv >= 0 else [None]):
            tasks.append((key, case, fv, gv, [op] if op else sorted(ops)))
    expected = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(NCPU, maxtasksperchild=1) as pool:
        for (key, case, fv, gv, ops), res in zip(tasks, pool.map(pristine, tasks, 1)):
            for op, v in res.items():
                expected.setdefault(key, {})[(case, fv, gv, op)] = v
    c.note("results_of_fresh_objects", sum(len(v) for v in expected.values()))
    for (key, h), bad in zip(jobs, pmap(replay, [(k, h, expected[k]) for k, h in jobs], chunksize=4)):
        for what in bad[:2]:
            cfg = Config(*key)
            c.violation("%s %s (%s frame, fill %s, other %s): %s" % (cfg.name, cfg.p, cfg.style, cfg.fill, cfg.other, what),
                        {"config": key, "history": h, "what": what})
    c.traces += len(jobs)
    c.note("histories_in_model", total)
    c.note("histories_replayed", len(jobs))
    c.sample({"history": hists[0]}, 1)
    return c
