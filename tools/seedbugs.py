#!/usr/bin/env python3
"""Helper for planted bugs: builds /verif/seeded/<id>/ from an edit, and confirms it in a scratch copy.

  seedbugs.py make SPEC.py     SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)]
  seedbugs.py verify [id ...]  patch applies, compiles, stable tests pass, demo 0 without / nonzero with the patch
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.environ.get("SEEDED", "/verif/seeded")
PYV = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
T=$(mktemp -d); export MPLCONFIGDIR="$T"
/opt/venv/bin/python -W ignore "$D/demo.py"; R=$?
rm -r "$T"
exit $R
"""

def copy():
    d = tempfile.mkdtemp(prefix="seedwork-")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    return d, r

def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d, r = copy()
    try:
        for b in g["BUGS"]:
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
            for fn, (old, new) in zip(files, b["edits"]):
                p = os.path.join(r, fn)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], check=True, capture_output=True, text=True).stdout
            o = os.path.join(V, b["id"])
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            open(os.path.join(o, "demo.sh"), "w").write(DEMO)
            open(os.path.join(o, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(o, "meta.json"), "w"), indent=1)
            for with_patch in (False, True):
                if not with_patch:
                    subprocess.run(["git", "-C", r, "stash", "-q"], check=True)
                x = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
                if not with_patch:
                    subprocess.run(["git", "-C", r, "stash", "pop", "-q"], check=True)
                ok = (x.returncode != 0) == with_patch
                print(b["id"], "patched" if with_patch else "clean", "demo exit", x.returncode, "ok" if ok else "*** WRONG", x.stderr[-300:] if not ok else "")
    finally:
        shutil.rmtree(d)

def verify(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if False else None
    for i in ids or sorted(os.listdir(V)):
        d, r = copy()
        try:
            x = subprocess.run(["git", "-C", r, "apply", os.path.join(V, i, "patch.diff")], capture_output=True, text=True)
            if x.returncode:
                print(i, "*** does not apply", x.stderr); continue
            env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=d + "/mpl",
                       OMP_NUM_THREADS="1", PYTHONPATH=r)
            t = subprocess.run([PYV, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x"],
                               cwd=r, env=env, capture_output=True, text=True)
            print(i, "tests:", t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:], "" if t.returncode == 0 else "*** FAIL")
        finally:
            shutil.rmtree(d)
        sys.stdout.flush()

if __name__ == "__main__":
    make(sys.argv[2]) if sys.argv[1] == "make" else verify(sys.argv[2:])
