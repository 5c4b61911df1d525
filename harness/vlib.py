"""Shared machinery of the checks: running TLC, recording runs of the real code, verdicts, evidence."""
from __future__ import annotations

import contextlib
import io
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJ = "/opt/veriftools/tla/tla2tools.jar"
CMJ = "/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 1)


def build_java():
    src = sorted(os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java"))
    want = [os.path.join(BUILD, os.path.basename(s)[:-5] + ".class") for s in src]
    if all(os.path.exists(w) and os.path.getmtime(w) >= os.path.getmtime(s) for s, w in zip(src, want)):
        return
    tmp = tempfile.mkdtemp(prefix="vbuild.")
    try:
        subprocess.run(["javac", "-nowarn", "-cp", TLAJ, "-d", tmp, *src], check=True, capture_output=True, text=True)
        os.makedirs(BUILD, exist_ok=True)
        for f in os.listdir(tmp):
            t = os.path.join(BUILD, f + ".%d" % os.getpid())
            shutil.copy(os.path.join(tmp, f), t)
            os.replace(t, os.path.join(BUILD, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.transitions = self.states = int(m[-1].replace(",", ""))
        self.prints = re.findall(r"^<<.*>>$", out, flags=re.M)

    @property
    def ok(self):
        return self.rc == 0

    def brief(self):
        lines = [x for x in self.out.splitlines() if not x.startswith(("Attempted", "public static", "but it produced", "Parsing", "Semantic", "Linting", "Loading", "<<"))]
        return "\n".join(x[:300] for x in lines[:40] + ["..."] + lines[-10:])

    def violated(self):
        m = re.search(r"Invariant (\S+) is violated|Error: (.*)", self.out)
        return (m.group(1) or m.group(2)) if m else None

    def tagged(self, tag):
        """lines printed with PrintT(<<"TAG", ...>>) as lists of raw fields"""
        return [p for p in self.prints if p.startswith('<<"%s"' % tag)]


def tlc(module, cfg=None, env=None, workers=CPUS, extra=(), timeout=800, heap="6g", workdir=None, consts=None, invariants=None):
    """Run TLC on spec/<module>.tla. consts: dict of CONSTANT overrides appended to a copy of the cfg."""
    build_java()
    own = workdir is None
    wd = tempfile.mkdtemp(prefix="tlc.", dir=workdir)
    try:
        cfgfile = os.path.join(SPEC, (cfg or module) + ".cfg")
        if consts or invariants:
            text = open(cfgfile).read()
            if consts:
                text += "\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items())
            if invariants:
                text += "\nINVARIANTS " + " ".join(invariants) + "\n"
            cfgfile = os.path.join(wd, "run.cfg")
            open(cfgfile, "w").write(text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + wd,
               "-cp", ":".join([BUILD, TLAJ, CMJ]), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(wd, "meta"), "-workers", str(workers),
               "-config", cfgfile, *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=wd)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
        return TLCResult(out, rc)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def apalache(module, init, inv, length, workdir, timeout=600):
    """Run Apalache on spec/<module>.tla (integers without bound); True if no error was found."""
    wd = tempfile.mkdtemp(prefix="apa.", dir=workdir)
    try:
        shutil.copy(os.path.join(SPEC, module + ".tla"), wd)
        e = {**os.environ, "HOME": wd, "TMPDIR": wd, "JVM_ARGS": "-Xmx4g -Djava.io.tmpdir=" + wd}
        try:
            r = subprocess.run(["apalache-mc", "check", "--out-dir=" + os.path.join(wd, "out"), f"--init={init}", f"--inv={inv}", f"--length={length}", module + ".tla"],
                               cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"Apalache timed out on {module}")
        return r.returncode == 0 and "The outcome is: NoError" in r.stdout, r.stdout + r.stderr
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------- numbers

def num(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def nums(a):
    return [num(x) for x in a]


def nmat(a):
    return [nums(r) for r in a]


def perm(labels, ref):
    """positions (from 1) of labels in ref; 0 for a label that ref does not have"""
    ref = list(ref)
    out = []
    for x in list(labels):
        try:
            out.append(ref.index(x) + 1)
        except ValueError:
            out.append(0)
    return out


# ---------------------------------------------------------------- running the code under test

class RunTimeout(BaseException):
    pass


def guarded(fn, *a, limit=60):
    """(value, None) or (None, 'ErrorName: text'); a call that does not come back within limit seconds is 'Timeout'"""
    def h(*_):
        raise RunTimeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a), None
    except RunTimeout:
        return None, "Timeout"
    except Exception as e:  # the code under test may raise anything
        return None, type(e).__name__ + ": " + str(e)[:200]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Recorder:
    """records one run; what the code returned may be so malformed that it cannot even be written down: that is a run too"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, case):
        try:
            return self.fn(case)
        except (AttributeError, TypeError, ValueError, KeyError, IndexError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return {"broken": f"{type(e).__name__}: {str(e)[:200]} ({os.path.basename(tb.filename)}:{tb.lineno})", "case": case, "ev": []}


def pmap(fn, items, procs=CPUS):
    fn, items = Recorder(fn), list(items)
    if not items:
        return []
    if len(items) < 4 or procs == 1:
        return [fn(i) for i in items]
    with ProcessPoolExecutor(procs, mp_context=get_context("fork")) as ex:
        return list(ex.map(fn, items, chunksize=max(1, min(16, len(items) // (procs * 4)))))


# ---------------------------------------------------------------- one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif.")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.parts = []
        self.violations = []       # (text, run)
        self.lost = []             # runs the specification could not read
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- design level
    def model(self, module, cfg=None, **kw):
        r = tlc(module, cfg, workdir=self.work, **kw)
        if r.rc == 124:
            raise MachineryError(f"TLC timed out on {cfg or module}")
        if not r.ok:
            raise MachineryError(f"design model {cfg or module}: {r.violated()}\n{r.out[-3000:]}")
        self.states += r.states
        self.transitions += r.transitions
        self.parts.append({"model": cfg or module, "states": r.states, "transitions": r.transitions})
        return r

    def induct(self, module):
        """Init => Ind, Ind and Next => Ind', Ind => Done, for unbounded integers"""
        from concurrent.futures import ThreadPoolExecutor
        todo = [("Init", "Ind", 0), ("IndInit", "Ind", 1), ("IndInit", "Done", 0)]
        with ThreadPoolExecutor(3) as ex:
            for t, (ok, out) in zip(todo, ex.map(lambda t: apalache(module, *t, workdir=self.work), todo)):
                if not ok:
                    raise MachineryError(f"inductive proof {module} {t}: {out[-2000:]}")
        self.parts.append({"inductive": module, "obligations": len(todo), "tool": "Apalache"})

    # -- conformance level
    def validate(self, module, runs, relevant=lambda run, clause: True, shards=None, cfg=None, env=None):
        """Check recorded runs against spec/<module>.tla; returns the clauses violated per run id."""
        for r in runs:
            if "broken" in r:
                self.violation(f"{module}: output of the code cannot be recorded: {r['broken']}", r)
        runs = [r for r in runs if "broken" not in r]
        if not runs:
            return {}
        for i, r in enumerate(runs):
            r["id"] = "r%d" % i
        byid = {r["id"]: r for r in runs}
        shards = shards or 1
        groups = [runs[i::shards] for i in range(shards)]
        groups = [g for g in groups if g]
        files = []
        for i, g in enumerate(groups):
            f = os.path.join(self.work, f"trace{len(self.parts)}_{i}.json")
            with open(f, "w") as fh:
                json.dump([strip(r) for r in g], fh, default=lambda o: o.item())
            files.append(f)

        def one(f):
            return tlc(module, cfg, env={**(env or {}), "TRACE_FILE": f}, workers=max(1, CPUS // len(files)), workdir=self.work)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(files)) as ex:
            res = list(ex.map(one, files))
        res = [x for f, g, r in zip(files, groups, res) for x in ([r] if r.ok or r.rc == 124 else self.around(module, one, f, g, r))]
        for f in files:
            os.unlink(f)
        done, viol = set(), {}
        for r in res:
            if not r.ok:
                raise MachineryError(f"trace specification {module}: {r.violated()}\n{r.brief()}")
            self.states += r.states
            self.transitions += r.transitions
            for p in r.tagged("DONE"):
                done.add(re.match(r'<<"DONE", "([^"]+)"', p).group(1))
            for p in r.tagged("VIOL"):
                m = re.match(r'<<"VIOL", "([^"]+)", (\d+), (.*)>>$', p)
                viol.setdefault(m.group(1), set()).add((int(m.group(2)), m.group(3)))
        lost = {r["id"] for r in self.lost}
        for r in self.lost:
            self.violation(f"{module}: output of the code is malformed (the specification cannot read it)", r)
        self.lost = []
        done |= lost | {r["id"] for r in runs if not r.get("ev")}      # nothing to consume: judged in the initial state
        if done != set(byid):
            raise MachineryError(f"{module}: {len(byid) - len(done)} recorded runs were not consumed to the end, e.g. {sorted(set(byid) - done)[:3]}")
        self.traces += len(runs)
        self.parts.append({"traces": module, "runs": len(runs), "events": sum(len(r.get("ev", [])) for r in runs)})
        hit = {}
        for rid, vs in viol.items():
            run = byid[rid]
            keep = sorted((l, c.strip('"')) for l, c in vs if relevant(run, c.strip('"')))
            if keep:
                hit[rid] = keep
                self.violation(f"{module}: " + "; ".join(f"{c} at event {l}" for l, c in keep[:4]), run)
        self.samples += [sample(runs[i]) for i in sorted({0, len(runs) // 2})][: max(0, 4 - len(self.samples))]
        return hit

    def around(self, module, one, f, group, res):
        """TLC could not evaluate a shard: find up to three runs responsible for that and check the others without them"""
        if not re.search(r"evaluat|Attempted|TLC threw|error occurred", res.out):
            return [res]
        out = []

        def attempt(g):
            with open(f, "w") as fh:
                json.dump([strip(r) for r in g], fh, default=lambda o: o.item())
            return one(f)
        for _ in range(3):
            bad = list(group)
            while len(bad) > 1:           # the first half that fails
                half = bad[: len(bad) // 2]
                bad = half if not attempt(half).ok else bad[len(bad) // 2:]
            if attempt(bad).ok:
                return [res]
            self.lost.append(bad[0])
            group = [r for r in group if r is not bad[0]]
            r = attempt(group) if group else None
            if r is None:
                return out
            if r.ok:
                return [r]
        # more of them: enough is known
        self.lost += group
        return out

    def violation(self, text, run):
        self.violations.append((text, run))

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = known_findings(self.prop)
        new = []
        for text, run in self.violations:
            k = [d for d in known if finding_matches(d, text, run)]
            if k:
                print(f"KNOWN-FINDING: property={self.prop} {k[0]['what']}")
            else:
                new.append((text, run))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples or [{}],
                         "parts": self.parts, **self.extra},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (text, run) in enumerate(new[:5]):
                path = os.path.join(REPLAYS, f"{self.prop}-{self.tier}-{self.seed}-{i}.json")
                with open(path, "w") as fh:
                    json.dump({"property": self.prop, "violated": text, "run": run}, fh, indent=1, default=str)
                print("  " + text[:400])
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.states} traces={self.traces} wall={ev['wall_s']}s")
        return 0


def strip(run):
    return {k: v for k, v in run.items() if k not in ("case", "note")}


def sample(run):
    s = {k: v for k, v in run.items() if k not in ("ev",)}
    if "ev" in run:
        s["ev_count"] = len(run["ev"])
        s["ev_last"] = run["ev"][-1:]
    t = json.dumps(s, default=str)
    return json.loads(t) if len(t) < 6000 else {"truncated": t[:3000]}


def known_findings(prop):
    """entries `known: property=<id> match=<json> what=<text>` of known_findings.txt; `fixed:` lines suppress nothing"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(\{.*\}) what=(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": json.loads(m.group(2)), "what": m.group(3)})
    return out


def finding_matches(d, text, run):
    case = run.get("case", {}) if isinstance(run, dict) else {}
    return all(case.get(k) == v for k, v in d["match"].items() if k != "text") and d["match"].get("text", "") in text
