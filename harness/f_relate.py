"""Family 3: pairs of runs (Relate), interleaved streams (Iterators), the whole chain (System): C07, C13-C16."""
from __future__ import annotations

import hashlib
import pickle

import numpy as np
import pandas as pd

import f_combine as fc
import f_ewma as fe
from vlib import guarded, nmat, num, nums, perm

BLANK = {"has": False, "none": False, "v": [], "m": [], "x": [], "cov": [], "w": [], "u": [], "lab": True}


def isid(p, n):
    return p == list(range(1, n + 1))


# ------------------------------------------------------------------ one side of a pair

def side_ewma(kind, case, R, grid):
    from cvx.covariance.ewma import center, iterated_ewma, volatility
    n = R.shape[1]
    outs = [dict(BLANK) for _ in R.index]
    unit = nums(np.nan_to_num(np.abs(R.values)).max(axis=0)) if len(R) else []

    def row(fr, key):
        for k, q in enumerate(perm(fr.index, R.index)):
            if not q:
                outs[0]["lab"] = False
                continue
            o = outs[q - 1]
            o["has"], o[key] = True, nums(fr.values[k])
            o["lab"] = o["lab"] and isid(perm(fr.columns, R.columns), n)
            o["u"] = unit

    def go():
        if kind == "vol":
            row(volatility(R, case["hv"], min_periods=case["mpv"], clip_at=case["clip"]), "x")
        elif kind == "center":
            c, m = center(R, case["hv"], min_periods=case["mpv"], mean_adj=case["mean"])
            row(c, "x"), row(m, "m")
        else:
            for r in iterated_ewma(R, case["hv"], case["hc"], **fe.iewma_kw(case)):
                q = perm([r.time], R.index)[0]
                o = outs[q - 1]
                o.update(has=True, v=nums(r.volatility.values), m=nums(r.mean.values), cov=nmat(r.covariance.values), u=unit,
                         lab=q > 0 and all(isid(perm(x, R.columns), n) for x in (r.covariance.index, r.covariance.columns, r.mean.index, r.volatility.index)))
    _, err = guarded(go)
    return outs, err or ""


def side_combine(case, R, grid, sig, mu, keys, via=None):
    from cvx.covariance.combination import from_ewmas, from_sigmas
    n = R.shape[1]
    outs = [dict(BLANK) for _ in grid]

    def go():
        c = from_sigmas(sig, R, mu) if via is None else from_ewmas(R, via["pairs"], **via["kw"])
        k = list(c.sigmas) if via else keys
        for r in c.solve(window=case["window"]):
            if r is None:
                continue
            q = perm([r.time], grid)[0]
            o = outs[q - 1]
            o.update(has=True, m=nums(r.mean.values), cov=nmat(r.covariance.values), w=nums(r.weights.values),
                     lab=q > 0 and isid(perm(r.weights.index, k), len(k)) and all(isid(perm(x, R.columns), n) for x in (r.covariance.index, r.covariance.columns, r.mean.index)))
    _, err = guarded(go)
    return outs, err or ""


def disturb(R, cut, how, rng):
    """a frame that agrees with R up to position cut (1-based)"""
    if how == "truncate":
        return R.iloc[:cut]
    B = R.astype(float)
    k = len(R) - cut
    if k == 0:
        return B
    tail = B.values[cut:].copy()
    if how == "noise":
        tail = tail * 3 + rng.normal(size=tail.shape) * (np.nanstd(R.values) + 1e-9)
    elif how == "huge":
        tail[rng.integers(k)] = 1e3 * (np.nanstd(R.values) + 1e-9)
    elif how == "zero":
        tail[:] = 0.0
    elif how == "nan":
        tail[rng.random(tail.shape) < 0.7] = np.nan
    elif how == "one":
        tail[0, rng.integers(tail.shape[1])] += 5 * (np.nanstd(R.values) + 1e-9)
    elif how == "reverse":
        tail = tail[::-1]
    B.iloc[cut:] = tail
    if how == "drop":
        keep = list(range(cut)) + sorted(rng.permutation(np.arange(cut, len(R)))[: k // 2])
        B = R.iloc[keep]
    return B


def conditioned(case, R, grid, sig, mu, keys):
    """smallest curvature of the likelihood over convex weights (at equal weights), relative to its size"""
    L = {k: [np.linalg.cholesky(np.linalg.inv(np.asarray(sig[k][t]))) for t in grid] for k in keys}
    K, worst = len(keys), 1.0
    if K == 1:
        return 1.0
    Z = np.linalg.svd(np.ones((1, K)))[2][1:].T
    N = len(grid) - 1
    W = min(case["window"] or N, N)
    H = []
    for s in range(1, len(grid)):
        r = R.loc[grid[s]].values
        D = np.column_stack([np.diag(L[k][s - 1]) for k in keys])
        B = np.column_stack([L[k][s - 1].T @ (r - (0 if mu is None else np.asarray(mu[k][grid[s - 1]]))) for k in keys])
        E = D / D.mean(axis=1, keepdims=True)
        H.append(E.T @ E + B.T @ B)
    for t in range(W, N + 1):
        A = sum(H[t - W:t])
        worst = min(worst, np.linalg.eigvalsh(Z.T @ A @ Z)[0] / np.abs(A).max())
    return worst


def run_pair(case):
    rng = np.random.default_rng(case["seed"] + 7)
    kind, rel = case["kind"], case["rel"]
    run = {"kind": kind, "cut": 0, "tol": "1E-9", "wtol": "2E-3", "weights": True, "ex": [], "case": {k: v for k, v in case.items() if k != "classes"}}
    if kind in ("vol", "center", "iewma"):
        R = fe.frame(case)
        n, T = R.shape[1], len(R)
        pa, c = list(range(n)), np.ones(n)
        B = R
        if rel == "cut":
            run["cut"] = cut = case["cut"]
            B = disturb(R, cut, case["how"], rng)
            run["tol"] = "1E-12"
        elif rel == "order":
            pa = [int(v) for v in rng.permutation(n)]
            B = R.iloc[:, pa]
        elif rel == "rename":
            B = pd.DataFrame(R.values, index=fe.index(case["index2"], T), columns=fe.labels(case["labels2"], n, rng))
        elif rel == "units":
            c = np.full(n, float(case["c"])) if not case.get("single") else np.where(np.arange(n) == rng.integers(n), float(case["c"]), 1.0)
            B = R * c
        ok = R.copy(), B.copy()
        run["A"], run["errA"] = side_ewma(kind, case, ok[0], None)
        run["B"], run["errB"] = side_ewma(kind, case, ok[1], None)
        run["c"] = nums(c)
    else:
        R, grid, sig, mu, keys = fc.problem(case)
        via = case.get("via")
        n, K = R.shape[1], len(keys) if via is None else len(via["pairs"])
        pa, c, ex = list(range(n)), 1.0, list(range(K))
        gB, sB, mB, kB, RB, viaB = grid, sig, mu, keys, R, via
        if via:
            grid = gB = list(R.index)
        if rel == "cut":
            cut = run["cut"] = case["cut"]
            run["tol"], run["wtol"] = "1E-6", "1E-6"
            t = list(R.index).index(grid[cut - 1]) + 1
            RB = disturb(R, t, case["how"], rng)
            if via is None and case["how"] == "truncate":
                gB = grid[:cut]
                sB = {k: {q: sig[k][q] for q in gB} for k in keys}
                mB = None if mu is None else {k: {q: mu[k][q] for q in gB} for k in keys}
            elif via is None and case["how"] == "drop":
                gB = [q for q in grid if q in set(RB.index)]
                sB = {k: {q: sig[k][q] for q in gB} for k in keys}
                mB = None if mu is None else {k: {q: mu[k][q] for q in gB} for k in keys}
            elif via is None:
                z = case["what"]
                def f(q, s):
                    return s * (1 + 3 * rng.random()) if grid.index(q) >= cut else s
                if z != "returns":
                    sB = {k: {q: f(q, s) for q, s in sig[k].items()} for k in keys}
                    mB = None if mu is None else {k: {q: f(q, s) + 0 for q, s in mu[k].items()} for k in keys}
                if z == "experts":
                    RB = R
            else:
                RB = RB if case["how"] == "truncate" else disturb(R, t, "noise", rng)
        elif rel == "order":
            ex = [int(v) for v in rng.permutation(K)]
            if via:
                viaB = dict(via, pairs=[via["pairs"][e] for e in ex])
            else:
                kB = [keys[e] for e in ex]
                sB = {k: sig[k] for k in kB}
                mB = None if mu is None else {k: mu[k] for k in (kB if rng.random() < 0.5 else keys)}
            if via is None and case.get("rename"):
                new = {k: ("z%d" % i if rng.random() < 0.5 else 100 - i) for i, k in enumerate(kB)}
                sB = {new[k]: v for k, v in sB.items()}
                mB = None if mu is None else {new[k]: mB[k] for k in kB}
                kB = [new[k] for k in kB]
        elif rel == "rename":
            ix = fe.index(case["index2"], len(R))
            cols = fe.labels(case["labels2"], n, rng)
            RB = pd.DataFrame(R.values, index=ix, columns=cols)
            at = dict(zip(R.index, ix))
            gB = [at[t] for t in grid]
            sB = {k: {at[t]: pd.DataFrame(s.values, index=cols, columns=cols) for t, s in d.items()} for k, d in sig.items()}
            mB = None if mu is None else {k: {at[t]: pd.Series(np.asarray(s), index=cols) for t, s in d.items()} for k, d in mu.items()}
        elif rel == "units":
            c = float(case["c"])
            RB = R * c
            sB = {k: {t: s * c ** 2 for t, s in d.items()} for k, d in sig.items()}
            mB = None if mu is None else {k: {t: s * c for t, s in d.items()} for k, d in mu.items()}
        if rel in ("order", "units", "rename"):
            run["tol"] = "5E-3"
        run["ex"] = [e + 1 for e in ex]
        run["A"], run["errA"] = side_combine(case, R, grid, sig, mu, keys, via)
        run["B"], run["errB"] = side_combine(case, RB, gB, sB, mB, kB, viaB)
        run["c"] = nums(np.full(n, c))
        if via is None:
            run["weights"] = conditioned(case, R, grid, sig, mu, keys) > 1e-3
            if not run["weights"] and rel != "cut":
                return None
    run["pa"] = [v + 1 for v in pa]
    run["ev"] = []
    return run


# ------------------------------------------------------------------ C13

def digest(x):
    def d(o):
        if isinstance(o, pd.DataFrame):
            return ("F", d(o.values), [str(t) for t in o.dtypes], list(map(repr, o.index)), list(map(repr, o.columns)))
        if isinstance(o, pd.Series):
            return ("S", d(o.values), str(o.dtype), list(map(repr, o.index)))
        if isinstance(o, np.ndarray):
            return ("A", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else list(map(repr, o.tolist())))
        if isinstance(o, dict):
            return ("D", [(repr(k), d(v)) for k, v in o.items()])
        if isinstance(o, tuple) and hasattr(o, "_fields"):
            return ("N", [d(v) for v in o])
        if isinstance(o, (list, tuple)):
            return ("L", type(o).__name__, [d(v) for v in o])
        return repr(o)
    return hashlib.sha1(pickle.dumps(d(x), protocol=4)).hexdigest()


def flat(x):
    """(labels digest, numbers) of anything a predictor yields"""
    if x is None:
        return "", []
    if isinstance(x, pd.DataFrame):
        return digest([list(map(repr, x.index)), list(map(repr, x.columns))]), nums(np.asarray(x.values, dtype=float).ravel())
    if isinstance(x, pd.Series):
        return digest(list(map(repr, x.index))), nums(np.asarray(x.values, dtype=float))
    if isinstance(x, np.ndarray):
        return str(x.shape), nums(x.astype(float).ravel())
    if isinstance(x, (tuple, list)):
        p = [flat(v) for v in x]
        return digest([q[0] for q in p]), [v for q in p for v in q[1]]
    if isinstance(x, (float, int, np.floating, np.integer)) and not isinstance(x, bool):
        return "", [num(x)]
    return repr(x), []


def streams_of(case):
    """-> (inputs, make) ; make() builds a fresh object and returns one factory per stream"""
    rng = np.random.default_rng(case["seed"])
    what = case["what"]
    if what in ("combine", "from_ewmas"):
        R, grid, sig, mu, keys = fc.problem(case)
        M = len(grid)
        times = []
        if what == "from_ewmas":
            grid = None
        specs = []
        for L in case["lens"]:
            w = int(rng.integers(1, max(2, M - L - 1)))
            lo = int(rng.integers(w + 1, M - L + 2))
            specs.append((w, lo, L))
        if what == "combine":
            lists = [[grid[q - 1] for q in range(lo, lo + L)] for w, lo, L in specs]
            if case.get("full"):
                lists[0] = None
            inputs = (R, sig, mu, lists)

            def make():
                from cvx.covariance.combination import from_sigmas
                c = from_sigmas(sig, R, mu)
                return [lambda i=i: c.solve(window=specs[i][0], times=lists[i]) for i in range(len(specs))]
        else:
            pairs = [(3, 6), (5, 15)]
            inputs = (R, pairs)

            def make():
                from cvx.covariance.combination import from_ewmas
                c = from_ewmas(R, pairs, min_periods_vola=3, min_periods_cov=4, mean=bool(case.get("mean")), clip_at=case.get("clip"))
                return [lambda w=w: c.solve(window=w) for w, _, _ in specs]
        return inputs, make
    case_e = dict(case["e"])
    R = fe.frame(case_e)
    hs = [(float(rng.choice([1, 3, 7.5])), float(rng.choice([2, 5, 20]))) for _ in range(3)]
    if what == "iewma":
        from cvx.covariance.ewma import iterated_ewma
        return (R,), lambda: [lambda h=h, i=i: iterated_ewma(R, h[0], h[1], **fe.iewma_kw(dict(case_e, mean=i == 1 or case_e["mean"]))) for i, h in enumerate(hs)]
    adj = bool(rng.integers(2))
    if what == "frames":
        from cvx.covariance.ewma import center, clip, volatility
        return (R,), lambda: [lambda: iter([volatility(R, hs[0][0], clip_at=case_e["clip"])] * 1),
                              lambda: iter([center(R, hs[1][0], mean_adj=adj)]),
                              lambda: iter([clip(R, case_e["clip"] or 1.0)])]
    from cvx.covariance.ewma import iterated_ewma
    from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance
    sig = {r.time: r.covariance for r in iterated_ewma(R.fillna(0.1), 5, 10, min_periods_vola=2, min_periods_cov=R.shape[1] + 2)}
    r = int(rng.integers(1, R.shape[1] + 1))
    if what == "regularize":
        return (sig,), lambda: [lambda: regularize_covariance(sig, r), lambda: regularize_covariance(sig, r, low_rank_format=True), lambda: regularize_covariance(sig, R.shape[1])]
    if what == "em":
        init = {t: m for t, m in regularize_covariance(sig, min(r, max(1, R.shape[1] - 1)), low_rank_format=True)}
        init = {t: type(m)(F=m.F, d=m.d + 1e-3 * np.diag(sig[t]).mean()) for t, m in init.items()}
        return (sig, init), lambda: [lambda: em_regularize_covariance(sig, init)] * 3
    raise ValueError(what)


def stamp(x):
    return repr(x.time) if hasattr(x, "time") else repr(x[0]) if isinstance(x, tuple) and not isinstance(x[0], (pd.DataFrame, pd.Series)) else ""


def item(x):
    if x is None:
        return {"k": "none", "o": 0}
    lab, xs = flat(x)
    return {"k": "item", "o": {"t": stamp(x), "lab": lab, "x": xs}}


def run_iter(case, streams=streams_of, item=item, tol=None):
    inputs, make = streams(case)
    run = {"kind": "iter", "case": {k: v for k, v in case.items() if k != "e"}, "tol": tol or ("1E-9" if case["what"] not in ("combine", "from_ewmas") else "2E-4"), "unit": "0",
           "err": "", "refs": [[], [], []], "ev": []}
    cap = case.get("cap", 6)
    run["inputs"] = digest(inputs)      # before anything ran on them

    def refs():
        for i in range(3):
            src = make()
            if i < len(src):
                for k, x in enumerate(src[i]()):
                    if k < cap:
                        run["refs"][i].append(item(x))
    _, err = guarded(refs, limit=120)
    run["err"] = err or ""
    if what_is_empty(run):
        return None
    if case["what"] in ("combine", "from_ewmas"):
        run["unit"] = num(min(abs(float(v)) for r in run["refs"] for q in r if q["k"] == "item" for v in q["o"]["x"] if float(v) != 0) if run["err"] == "" else 1)
    handed, ev = [], run["ev"]

    def go():
        facts = make()
        gens = [None] * 3
        with fc.Solver() as S:
            for op, i in case["sched"]:
                i0 = i - 1
                if i0 >= len(facts):
                    continue
                e = {"op": op, "i": i, "k": "", "o": 0}
                solver = case["what"] in ("combine", "from_ewmas")
                S.mode = ["error", "infeasible", "iterlimit"][case["seed"] % 3] if op == "fail" and solver else None
                if op == "fail" and not solver:
                    e["op"] = op = "pull"
                n0 = len(S.log)
                try:
                    if op == "create":
                        gens[i0] = iter(facts[i0]())
                    elif op == "drop":
                        if hasattr(gens[i0], "close"):
                            gens[i0].close()
                        gens[i0] = None
                    else:
                        x = next(gens[i0], StopIteration)
                        if x is StopIteration:
                            e["k"] = "end"
                        else:
                            e.update(item(x))
                            if x is not None:
                                handed.append((x, digest(x)))
                        if op == "fail" and S.log[n0:] and S.log[-1] in fc.GOOD:
                            e["op"] = "pull"      # the limit did not stop the solver
                        if op == "fail" and not S.log[n0:] and e["k"] != "end":
                            e["op"] = "pull"      # no solve took place
                except Exception as x:
                    e.update(k="error", o=0)
                    run["case"]["error"] = type(x).__name__ + ": " + str(x)[:200]
                e["inputs"] = digest(inputs)
                e["handed"] = all(digest(x) == d for x, d in handed)
                ev.append(e)
                if e["k"] == "error":
                    break
    _, err = guarded(go, limit=120)
    if err:
        run["err"] = run["err"] or err
    if not ev:
        ev.append({"op": "nothing", "i": 1, "k": "", "o": 0, "inputs": run["inputs"], "handed": True})
    # a stream that is longer than the cap is never pulled past it by the schedules
    return run


def what_is_empty(run):
    return run["err"] == "" and not any(run["refs"])


# ------------------------------------------------------------------ C14

def run_system(case):
    from cvx.covariance.combination import from_ewmas
    rng = np.random.default_rng(case["seed"])
    R = fe.frame(case)
    n = R.shape[1]
    pairs = case["pairs"]
    kw = {}
    if not case.get("defaults"):
        kw = dict(min_periods_vola=case["mpv"], min_periods_cov=case["mpc"], clip_at=case["clip"], mean=case["mean"])
    mpv, mpc = (20, 20) if case.get("defaults") else (case["mpv"], case["mpc"])
    clip, mean = (None, False) if case.get("defaults") else (case["clip"], case["mean"])
    want = [f"{a}-{b}" for a, b in pairs]
    run = {"kind": "system", "err": "", "n": n, "K": 0, "names": [], "wantnames": want, "assets": [], "returns": False, "window": case["window"] or 0, "N": 0, "gtol": "3E-4",
           "experts": [{"n": n, "hv": num(a), "hc": num(b), "hm1": num(a), "hm2": num(b), "mpv": mpv, "mpc": mpc, "clip": "" if clip is None else num(clip),
                        "mean": bool(mean), "nan0": True} for a, b in pairs], "stream": [], "ev": [], "case": {k: v for k, v in case.items() if k != "classes"}}
    sig, mu = {}, {}

    def go():
        nonlocal sig, mu
        with fc.Solver() as S:
            c = from_ewmas(R.copy(), pairs, **kw)
            run["K"], run["names"], run["assets"] = int(c.K), [str(k) for k in c.sigmas], perm(c.assets, R.columns)
            run["returns"] = bool(c.returns.equals(R)) and list(c.means) == list(c.sigmas)
            sig, mu = c.sigmas, c.means
            run["N"] = max(0, len(next(iter(sig.values()))) - 1)
            for x in c.solve(window=case["window"]):
                if S.log and S.log[-1] == "optimal_inaccurate":
                    run["gtol"] = "2E-2"
                run["stream"].append({"k": "none"} if x is None else {
                    "k": "res", "t": perm([x.time], R.index)[0], "w": nums(x.weights.values), "cov": nmat(x.covariance.values), "mean": nums(x.mean.values),
                    "lab": perm(x.weights.index, want) == list(range(1, len(want) + 1)) and all(isid(perm(q, R.columns), n) for q in (x.covariance.index, x.covariance.columns, x.mean.index))})
    _, err = guarded(go, limit=120)
    run["err"] = err or ""
    for t in R.index:
        e = {"r": nums(R.loc[t].values), "sig": []}
        for k in want:
            h = {"has": False}
            if k in sig and t in sig[k]:
                s, m = sig[k][t], mu[k][t]
                h = {"has": True, "cov": nmat(s.values), "mean": nums(np.asarray(m, dtype=float)),
                     "lab": isid(perm(s.index, R.columns), n) and isid(perm(s.columns, R.columns), n) and isid(perm(m.index, R.columns), n)}
            e["sig"].append(h)
        run["ev"].append(e)
    return run


def execute(case):
    return {"pair": run_pair, "iter": run_iter, "system": run_system}[case["run"]](case)
