"""Turn a description of a planted bug into /verif/seeded/<id>/ after confirming it in a scratch copy of /repo.

usage: plant.py FILE.py      FILE defines BUGS, a list of dicts: id, property, file, edits [(old, new), ...], needs, breaks, demo (python source run in the root of the tree)
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"
HEAD = '''import os, sys, warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd


def fail(msg):
    print("FAIL", msg)
    sys.exit(1)


'''
TRADER = '''# ECOS is not installed here, and processes are not needed
import multiprocessing, multiprocessing.pool
import cvxpy
_solve = cvxpy.Problem.solve
def solve(self, *a, **kw):
    if kw.get("solver") == "ECOS":
        kw["solver"] = "CLARABEL"
    return _solve(self, *a, **kw)
cvxpy.Problem.solve = solve
multiprocessing.Pool = lambda *a, **kw: multiprocessing.pool.ThreadPool(1)


'''


def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def one(b):
    d = tempfile.mkdtemp(prefix="plant.")
    try:
        tree = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"old text occurs {s.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], tree)
        demo = HEAD + (TRADER if b.get("trader") else "") + b["demo"].strip("\n") + "\nprint(\"fine\")\n"
        dd = d + "/demo"
        os.makedirs(dd)
        open(dd + "/demo.py", "w").write(demo)
        open(dd + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        rc0, o0 = sh(["bash", dd + "/demo.sh"], "/repo")
        if rc0 != 0:
            return b["id"], "demo fails on the unchanged tree: " + o0[-600:]
        rc1, o1 = sh(["bash", dd + "/demo.sh"], tree)
        if rc1 == 0:
            return b["id"], "demo passes with the change"
        if "FAIL" not in o1 and not b.get("raises"):
            return b["id"], "demo crashes with the change: " + o1[-600:]
        rc, o = sh(["bash", "-c", '. /opt/vp/env.sh; cd "$0"; "$PY" -c "import cvx.covariance.ewma as m, os; assert os.path.realpath(m.__file__).startswith(os.getcwd()), m.__file__" && "$PY" -m pytest tests -q -p no:cacheprovider --timeout=300', tree], tree)
        if rc != 0:
            return b["id"], "tests fail with the change: " + o[-500:]
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(dd + "/demo.py", out)
        shutil.copy(dd + "/demo.sh", out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        rc, o = sh(["git", "apply", "--check", out + "/patch.diff"], "/repo")
        return b["id"], "ok " + o1.strip().splitlines()[-1][:100] + ("" if rc == 0 else " DOES NOT APPLY " + o)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)["BUGS"]]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, bugs):
            print(*r, flush=True)
