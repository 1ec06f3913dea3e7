#!/usr/bin/env python3
"""Mutation runs: how many small changes of the sources do the checks notice?

mutate.py list FILE...                        lists mutants of source files (paths below /repo)
mutate.py run OUT.jsonl PLAN.json [FILE...]   runs checks on every mutant in scratch copies of /repo
PLAN: {"checks": ["C20", ...], "env": {...}} or "auto" (indicator files: the family's checks restricted to that indicator).
Never touches /repo; works on copies below /tmp which it removes.
"""
import ast, copy, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
STR = {"buy": ["hold", "sell"], "sell": ["hold", "buy"], "hold": ["buy"], "high": ["low"], "low": ["high"], "close": ["open", "high"], "open": ["close"],
       "any": ["all"], "first": ["last"], "LONG": ["SHORT"], "SHORT": ["LONG"]}
ATTR = {"min": "max", "max": "min", "ffill": "bfill", "bfill": "ffill", "mean": "sum", "sum": "mean", "std": "var", "idxmin": "idxmax", "idxmax": "idxmin",
        "argmax": "argmin", "argmin": "argmax", "minimum": "maximum", "maximum": "minimum", "cumsum": "cumprod", "abs": "round"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") in ("set_facecolor", "grid", "legend", "margins", "set_alpha", "subplots_adjust", "suptitle", "fill_between"):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []

    def emit(node, new, what):
        a = starts[node.lineno - 1] + node.col_offset
        b = starts[node.end_lineno - 1] + node.end_col_offset
        text = ast.unparse(new)
        if isinstance(node, (ast.Compare, ast.BinOp, ast.BoolOp, ast.UnaryOp)):
            text = "(" + text + ")"
        m = raw[:a] + text.encode() + raw[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append({"line": node.lineno, "what": what, "src": m.decode(), "was": raw[a:b].decode()[:90], "now": text[:90]})
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for c in CMP.get(type(op), []):
                    q = copy.deepcopy(n)
                    q.ops[i] = c()
                    emit(n, q, "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str):
                continue
            q = copy.deepcopy(n)
            q.op = BIN[type(n.op)]()
            emit(n, q, "arithmetic")
            if isinstance(n.op, ast.Sub):
                q = copy.deepcopy(n)
                q.left, q.right = q.right, q.left
                emit(n, q, "operands swapped")
        elif isinstance(n, ast.BoolOp):
            q = copy.deepcopy(n)
            q.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            emit(n, q, "and/or")
            if len(n.values) >= 2:
                for i in range(len(n.values)):
                    q = copy.deepcopy(n)
                    del q.values[i]
                    emit(n, q if len(q.values) > 1 else q.values[0], "condition dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, n.operand, "not dropped")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                emit(n, ast.Constant(not v), "boolean")
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    emit(n, ast.Constant(w), "integer")
            elif isinstance(v, float):
                for w in (v + 1, v - 1, v * 1.01) if v else (0.5, -0.5):
                    emit(n, ast.Constant(w), "float")
            elif isinstance(v, str) and v in STR:
                for w in STR[v]:
                    emit(n, ast.Constant(w), "string")
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            q = copy.deepcopy(n)
            q.attr = ATTR[n.attr]
            emit(n, q, "method")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("round", "fillna", "ffill", "bfill", "abs", "copy", "sort_index", "dropna", "replace"):
            emit(n, n.func.value, n.func.attr + " dropped")
        elif isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg in ("min_periods", "adjust", "axis", "skipna", "closed", "center", "ascending", "method"):
                    q = copy.deepcopy(n)
                    del q.keywords[i]
                    emit(n, q, k.arg + " dropped")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and id(n) not in skip:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, ast.Subscript) or isinstance(n, ast.AugAssign):
                emit(n, ast.Pass(), "assignment dropped")
        elif isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Return):
            emit(n, ast.Pass(), "early return dropped")
    seen, res = set(), []
    for m in out:
        if m["src"] not in seen and m["src"] != src:
            seen.add(m["src"])
            res.append(m)
    return res


def classes_in(path):
    return [n.name for n in ast.parse(open(path).read()).body if isinstance(n, ast.ClassDef)]


def auto_plan(path, catalog, families):
    name = classes_in(path)[0]
    fam = {"ma": "C19", "osc": "C20", "vol": "C21", "chan": "C22", "path": "C23"}[catalog[name]["family"]]
    sig = {"cross": "C24", "latest": "C25", "pattern": "C26"}[next(f for f in families if name in families[f])]
    return [fam, sig, "C16", "C15", "C14"], {"VERIF_ONLY": name}


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for i, m in enumerate(mutants(os.path.join(REPO, f))):
                print(f, i, m["line"], m["what"], "|", m["was"], "=>", m["now"])
        return
    out, plan, files = sys.argv[2], sys.argv[3], sys.argv[4:]
    info = json.load(open("/tmp/mutinfo.json"))
    done = set()
    if os.path.exists(out):
        done = {(json.loads(l)["file"], json.loads(l)["n"]) for l in open(out)}
    workers = int(os.environ.get("WORKERS", 4))
    pool = []
    for i in range(workers):
        d = "/tmp/mut-%d-%d" % (os.getpid(), i)
        shutil.copytree(REPO, d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns(".git", "__pycache__", "seeded", "replays"))
        pool.append(d)
    jobs = []
    for f in files:
        if plan == "auto":
            checks, env = auto_plan(os.path.join(REPO, f), info["catalog"], info["families"])
        else:
            p = json.load(open(plan))
            checks, env = p["checks"], p.get("env", {})
        for i, m in enumerate(mutants(os.path.join(REPO, f))):
            if (f, i) not in done:
                jobs.append((f, i, m, checks, env))
    print(len(jobs), "mutants", flush=True)

    def one(job):
        f, i, m, checks, env = job
        d = pool.pop()
        try:
            with open(os.path.join(d, "repo", f), "w") as h:
                h.write(m["src"])
            e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_CPUS=os.environ.get("VERIF_CPUS", "2"), **env)
            res, killed = {}, None
            for c in checks:
                try:
                    p = subprocess.run(["/opt/venv/bin/python", d + "/verif/check.py", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    rc, text = p.returncode, p.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    rc, text = 99, "timeout"
                res[c] = rc
                if rc != 0:
                    killed = c
                    if rc != 1:
                        res["text"] = text[-600:]
                    break
            r = {"file": f, "n": i, "line": m["line"], "what": m["what"], "was": m["was"], "now": m["now"], "killed": killed, "rc": res}
        finally:
            shutil.copy(os.path.join(REPO, f), os.path.join(d, "repo", f))
            pool.append(d)
        with open(out, "a") as h:
            h.write(json.dumps(r) + "\n")
        return r
    with ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(one, jobs))
    print("killed", sum(r["killed"] is not None for r in rs), "of", len(rs))
    for d in pool:
        shutil.rmtree(d, ignore_errors=True)


main()
