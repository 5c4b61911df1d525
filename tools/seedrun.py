"""Run the checks of planted bugs (all, or the ids given) in scratch copies of /repo: seedrun.py [-t thorough] [-s SEED] [ids]"""
import json, os, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
a = argparse.ArgumentParser()
a.add_argument("ids", nargs="*")
a.add_argument("-t", default="quick")
a.add_argument("-s", default="1")
a.add_argument("-p", default=None, help="check to run instead of the bug's own")
o = a.parse_args()
S = "/verif/seeded"


def one(i):
    d = tempfile.mkdtemp(prefix="seedrun.")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "apply", f"{S}/{i}/patch.diff"], cwd=d + "/repo", check=True)
        p = o.p or json.load(open(f"{S}/{i}/meta.json"))["property"]
        r = subprocess.run(["/verif/check", p, o.t], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d + "/repo", "VERIF_SEED": o.s})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        n = r.stdout.splitlines()
        why = {l.split(" at event")[0].strip() for l in n if l.startswith("  ")}
        return i, p, r.returncode, len(v), sorted(why)[:4], "" if r.returncode in (0, 1) else (r.stdout + r.stderr)[-400:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, o.ids or sorted(os.listdir(S))):
        print("CAUGHT" if r[2] == 1 and r[3] else "MISSED", *r, flush=True)
