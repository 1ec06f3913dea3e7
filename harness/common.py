"""Shared machinery of the checks: environment, TLC runs, evidence, verdicts."""
import hashlib, json, math, os, random, re, shutil, subprocess, sys, tempfile, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
PY = "/opt/venv/bin/python"
NCPU = int(os.environ.get("VERIF_CPUS", min(8, os.cpu_count() or 4)))
ONLY = set(filter(None, os.environ.get("VERIF_ONLY", "").split(",")))      # restricts checks to some indicators (mutation runs)


class MachineryError(Exception):
    """Something in the machinery (not in the code under test) failed."""


# ---------------------------------------------------------------- environment
def bootstrap():
    """Re-executes the interpreter with a clean, deterministic environment."""
    if os.environ.get("VERIF_BOOT") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="ttiverif-")
    env = dict(os.environ)
    env.update({
        "VERIF_BOOT": "1", "VERIF_SCRATCH": scratch, "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"), "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPATH": REPO + os.pathsep + os.path.join(VERIF, "harness"), "PYTHONWARNINGS": "ignore",
        "TZ": "UTC",
    })
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    for src in ("/opt/vp/mplconfig", os.path.expanduser("~/.cache/matplotlib")):     # matplotlib's font list, to save time
        try:
            for f in os.listdir(src):
                if f.startswith("fontlist"):
                    shutil.copy(os.path.join(src, f), env["MPLCONFIGDIR"])
        except OSError:
            pass
    try:
        p = subprocess.run([PY] + sys.argv, env=env)
        code = p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code if code >= 0 else 2)


def scratch():
    return os.environ["VERIF_SCRATCH"]


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def thorough():
    return os.environ.get("VERIF_TIER", "quick") == "thorough"


def rng(*what):
    h = hashlib.sha256(repr((seed(),) + what).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ------------------------------------------------------------------- numbers
def rat(x):
    """Canonical rational string (module Rat) of a number."""
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fraction):
        f = x
    else:
        if x is None:
            return "nan"
        try:
            y = float(x) if not isinstance(x, int) else x
        except Exception:
            return "nan"
        if isinstance(y, float):
            if math.isnan(y):
                return "nan"
            if math.isinf(y):
                return "inf" if y > 0 else "-inf"
        try:
            if isinstance(x, int):
                f = Fraction(x)
            elif hasattr(x, "dtype") and "int" in str(x.dtype):
                f = Fraction(int(x))
            else:
                f = Fraction(y)
        except Exception:
            return "nan"
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def frac(s):
    if s == "nan":
        return math.nan
    if s == "inf":
        return math.inf
    if s == "-inf":
        return -math.inf
    return Fraction(s)


def num(s):
    return float(frac(s))


# ----------------------------------------------------------------------- TLC
_cp = None


def classpath():
    global _cp
    if _cp:
        return _cp
    src = os.path.join(SPEC, "java", "Rat.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for base in (os.path.join(VERIF, "build"), os.path.join(scratch(), "build")):
        out = os.path.join(base, h)
        if os.path.exists(os.path.join(out, "Rat.class")):
            break
        tmp = os.path.join(base, h + ".%d" % os.getpid())
        try:
            os.makedirs(tmp, exist_ok=True)
            subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src],
                           check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
            break
        except OSError:
            continue
    _cp = ":".join([out, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
    return _cp


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else 0
        self.messages = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    s = json.loads(line)
                except ValueError:
                    # TLC escapes like Java strings; fall back to unescaping quotes and backslashes
                    s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                if isinstance(s, str):
                    self.messages.append(s)
        self.ok = "Model checking completed. No error has been found." in out

    def records(self):
        r = []
        for m in self.messages:
            if m.startswith("{"):
                r.append(json.loads(m))
        return r

    def replays(self, tag="REPLAY "):
        return [json.loads(m[len(tag):]) for m in self.messages if m.startswith(tag)]


_n = [0]


def tlc(module, cfg, trace=None, workers=NCPU, timeout=800, heap="3g", coverage=False, env=None, extra=()):
    """Runs TLC on a module of /verif/spec with the given configuration text."""
    _n[0] += 1
    d = os.path.join(scratch(), "tlc%d-%d" % (os.getpid(), _n[0]))
    os.makedirs(d)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if trace is not None:
        e["TRACE"] = trace
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", classpath(), "tlc2.TLC",
           "-metadir", os.path.join(d, "m"), "-workers", str(workers), "-config", cfgf, "-noGenerateSpecTE"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module]
    t0 = time.time()
    outf = os.path.join(d, "out.txt")
    with open(outf, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    out = open(outf, errors="replace").read()
    r = Tlc(out, rc, time.time() - t0)
    if not r.ok:
        keep = os.path.join(VERIF, "replays")
        try:
            os.makedirs(keep, exist_ok=True)
            shutil.copy(outf, os.path.join(keep, "tlc-failure-%s.txt" % module))
        except OSError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return r


def tlc_model(module, cfg, **kw):
    """A model check of the specification itself: anything but success is a machinery failure."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise MachineryError("TLC on %s failed (rc %s): %s" % (module, r.rc, tail_error(r.out)))
    return r


def tail_error(out):
    i = out.find("Error:")
    return out[i:i + 2500] if i >= 0 else out[-1500:]


# ------------------------------------------------------------------- verdicts
class Check:
    """Collects coverage and violations of one property and writes the evidence."""

    current = None

    def __init__(self, prop):
        Check.current = self
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.violations, self.notes = [], [], {}
        self.assumptions = []
        self.known = known_findings(prop)
        self.known_hit = {}
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        self.rdir = rdir

    def add(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def note(self, k, v):
        if isinstance(v, (int, float)) and k in self.notes:
            self.notes[k] += v
        else:
            self.notes[k] = v

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, replay, key=None):
        """what: one line; replay: JSON-able description that reproduces it."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                self.known_hit[key] = k
                return
        self.violations.append((what, replay))

    def finish(self):
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        shown = 0
        for what, replay in self.violations:
            if shown >= 5:
                break
            name = "%s-%d.json" % (self.prop, shown + 1)
            path = os.path.join(self.rdir, name)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what[:600])
            shown += 1
        if len(self.violations) > shown:
            print("  ... and %d more" % (len(self.violations) - shown))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": seed(),
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d states, %d transitions, %d traces validated against the implementation, %d violations, %.1f s"
              % (self.prop, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                x = json.loads(line)
                if x.get("property") == prop and x.get("status") == "known":
                    r.append(x)
    return r


def validate(check, module, traces, invariants=(), relevant=None, describe=None, key=None,
             workers=NCPU, cfg_extra="", chunk=None, heap="4g"):
    """Checks recorded traces with a trace specification; every trace must end in a DONE or REJECT line.

    relevant: set of clause names (or a predicate) that count for this property.
    """
    ids = [t["id"] for t in traces]
    assert len(set(ids)) == len(ids)
    by = {t["id"]: t for t in traces}
    size = chunk or len(traces) or 1
    rejected = 0
    for i in range(0, len(traces), size):
        part = traces[i:i + size]
        _n[0] += 1
        path = os.path.join(scratch(), "trace%d-%d.json" % (os.getpid(), _n[0]))
        with open(path, "w") as f:
            json.dump(part, f)
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + cfg_extra
        for inv in invariants:
            cfg += "INVARIANT %s\n" % inv
        r = tlc(module, cfg, trace=path, workers=workers, heap=heap)
        os.unlink(path)
        if not r.ok:
            raise MachineryError("TLC on %s failed (rc %s): %s" % (module, r.rc, tail_error(r.out)))
        check.add(r)
        seen = set()
        for rec in r.records():
            if rec.get("v") not in ("DONE", "REJECT"):
                continue
            seen.add(rec["id"])
            if rec["v"] == "REJECT":
                cl = set(rec["clauses"])
                rel = cl if relevant is None else (
                    {c for c in cl if relevant(c)} if callable(relevant) else cl & relevant)
                if rel:
                    rejected += 1
                    tr = by[rec["id"]]
                    what = "%s: trace %s rejected at event %s, clauses %s" % (
                        module, rec["id"], rec["at"], sorted(rel))
                    if describe:
                        what += " :: " + describe(tr, rec)
                    check.violation(what, {"module": module, "trace": tr, "verdict": rec},
                                    key=key(tr, rec, rel) if key else None)
        missing = [t["id"] for t in part if t["id"] not in seen]
        if missing:
            raise MachineryError("%s: no verdict for %d traces, e.g. %s" % (module, len(missing), missing[:3]))
        check.traces += len(part)
    return rejected


# ---------------------------------------------------------------- worker pool
class CodeRaised(Exception):
    """The code under test raised where the specification has a result."""

    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def from_code(e):
    """Whether an exception passed through the code under test."""
    import traceback
    root = os.path.realpath(os.path.join(REPO, "tti")) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


def _guarded(job):
    func, x = job
    try:
        return "ok", func(x)
    except MachineryError:
        raise
    except Exception as e:
        if not from_code(e):
            raise
        import traceback
        return "raised", ("%s: %s" % (type(e).__name__, str(e)[:200]), "".join(traceback.format_exception(e))[-3000:], repr(x)[:5000])


def pmap(func, items, procs=NCPU, chunksize=None):
    """Ordered parallel map over forked workers; an exception in a worker is a machinery failure, unless the code
    under test raised it."""
    import multiprocessing as mp
    items = list(items)
    jobs = [(func, x) for x in items]
    if len(items) <= 1 or procs <= 1:
        out = [_guarded(j) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, len(items))) as pool:
            out = pool.map(_guarded, jobs, chunksize or max(1, len(items) // (procs * 8)))
    for tag, v in out:
        if tag == "raised":
            raise CodeRaised("the implementation raised %s on input %s" % (v[0], v[2][:300]), {"traceback": v[1], "input": v[2]})
    return [v for _, v in out]


# ---------------------------------------------------------------- the catalog
_cat = None


def catalog():
    """The indicators' interface, as printed by spec/ShowCatalog.tla."""
    global _cat
    if _cat is None:
        cache = os.path.join(scratch(), "catalog.json")
        if not os.path.exists(cache):
            r = tlc("ShowCatalog", "", workers=1)
            m = [m for m in r.messages if m.startswith("CATALOG ")]
            if not m:
                raise MachineryError("no catalog: " + tail_error(r.out))
            with open(cache, "w") as f:
                f.write(m[0][len("CATALOG "):])
        _cat = json.load(open(cache))
        if ONLY:
            _cat = {k: v for k, v in _cat.items() if k in ONLY}
    return _cat


def defaults(name):
    """Default parameters as in the catalog: integers and strings (rationals for non-integer kinds)."""
    p = {}
    for q in catalog()[name]["params"]:
        p[q["name"]] = int(q["default"]) if q["kind"] in ("int", "oneof") else q["default"]
    return p


def pyparams(name, p):
    """Python keyword arguments of specification parameters."""
    kw = {}
    for q in catalog()[name]["params"]:
        v = p[q["name"]]
        if q["kind"] in ("positive", "fraction", "number"):
            f = Fraction(v)
            v = int(f) if f.denominator == 1 and q["kind"] != "fraction" else float(f)
        kw[q["name"]] = v
    return kw
