"""Family 2: covariance combination against Combine.tla (C08-C12, C17, C18)."""
from __future__ import annotations

import json
import re

import numpy as np
import pandas as pd

from f_ewma import IDX, LABS, index, labels
from vlib import guarded, nmat, nums, perm

GOOD = ("optimal", "optimal_inaccurate")


class Solver:
    """cvxpy.Problem.solve, watched: what each solve ended with, and made to fail on demand (per pulled result)."""

    def __init__(self):
        import cvxpy
        self.cvx, self.mode, self.log, self.found = cvxpy, None, [], []

    def __enter__(self):
        cvx, me = self.cvx, self
        me.orig = orig = cvx.Problem.solve

        def solve(prob, *a, **kw):
            mode = me.mode
            if mode == "error":
                me.log.append("error")
                raise cvx.SolverError("injected")
            if mode == "infeasible":
                me.log.append("infeasible")
                prob._status, prob._value = "infeasible", -np.inf
                for v in prob.variables():
                    v.save_value(None)
                return prob._value
            if mode == "iterlimit":
                kw["max_iter"] = 1 + len(me.log) % 3
            if mode == "timelimit":
                kw["time_limit"] = 1e-9
            try:
                out = orig(prob, *a, **kw)
            except Exception:
                me.log.append("error")
                raise
            me.log.append(prob.status)
            me.found.append([np.ravel(v.value) for v in prob.variables() if v.value is not None])
            return out
        cvx.Problem.solve = solve
        return self

    def __exit__(self, *_):
        self.cvx.Problem.solve = self.orig


# ------------------------------------------------------------------ data

def spd(rng, n, strength, scale):
    A = rng.normal(size=(n, n + 2)) * strength + np.eye(n, n + 2) * 2
    S = A @ A.T / (n + 2)
    d = scale * np.exp(0.4 * rng.normal(size=n))
    return S * np.outer(d, d)


def wishart(rng, S, m):
    X = np.linalg.cholesky(S) @ rng.normal(size=(len(S), m))
    return X @ X.T / m


def names(kind, K, rng):
    if kind == "pair":
        return [f"{5 * (k + 1)}-{10 * (k + 1)}" for k in range(K)]
    if kind == "int":
        return [int(v) for v in rng.permutation(K) + 1]
    if kind == "rev":
        return [f"e{9 - k}" for k in range(K)]
    return [f"expert{k}" for k in range(K)]


def problem(case):
    """-> returns frame, grid labels, sigmas, means (or None), keys"""
    rng = np.random.default_rng(case["seed"])
    n, K, M = case["n"], case["K"], case["M"]
    step = case.get("step", 1)
    lead = case.get("lead", 0)
    T = lead + (M - 1) * step + 1 + case.get("tail", 0)
    ix = index(case.get("index", "days"), T)
    cols = labels(case.get("labels", "str"), n, rng)
    scale = case.get("scale", 0.01)
    grid = [ix[lead + step * j] for j in range(M)]
    keys = names(case.get("names", "expert"), K, rng)
    base = spd(rng, n, case.get("strength", 0.6), scale)
    X = (np.linalg.cholesky(base) @ rng.normal(size=(n, T))).T * (1 + 0.5 * rng.random((T, 1)))
    if case.get("shock"):
        X[rng.integers(0, T)] *= case["shock"]
    units = np.ones(n)
    if case.get("spread"):             # assets whose returns differ by this many decades
        units = 10.0 ** (case["spread"] * (np.random.default_rng(case["seed"] + 3).permutation(n) / max(n - 1, 1) - 0.5))
    R = pd.DataFrame(X * units, index=ix, columns=cols)
    if case.get("gaps") and not case.get("experts"):       # missing returns
        R = R.mask(np.random.default_rng(case["seed"] + 5).random(R.shape) < case["gaps"])
    if case.get("experts") == "iewma":
        from cvx.covariance.ewma import iterated_ewma
        sig, mu = {}, {}
        for k, key in enumerate(keys):
            res = list(iterated_ewma(R, 2 + 3 * k, 4 + 5 * k, min_periods_vola=3, min_periods_cov=n + 2, mean=case.get("means") is not None))
            sig[key] = {r.time: r.covariance for r in res}
            mu[key] = {r.time: r.mean for r in res}
        grid = list(sig[keys[0]])
        return R, grid, sig, (mu if case.get("means") else None), keys
    if case.get("experts") == "pandas":    # as in the README: moving covariances of the factor returns, computed by pandas
        import f_ewma
        R = f_ewma.real({"real": "ff5", "T": M, "n": n}, rng)
        sig = {}
        for k, key in enumerate(keys):
            e = R.ewm(halflife=[21, 63, 5, 125][k % 4] + k // 4, min_periods=n + 3).cov().dropna()
            sig[key] = {t: e.loc[t] for t in e.index.get_level_values(0).unique()}
        return R, list(sig[keys[0]]), sig, None, keys
    S, m = {k: {} for k in keys}, {k: {} for k in keys}
    bias = {k: np.exp(case.get("bias", 0.5) * rng.normal(size=n)) for k in keys}
    for t in grid:
        for k in keys:
            s = wishart(rng, base, n + 2 + int(rng.integers(0, 6))) * np.outer(bias[k], bias[k])
            if case.get("cond"):
                w = rng.normal(size=n)
                s = s + np.outer(w, w) * s.trace() * case["cond"] / n
            S[k][t] = (s + s.T) / 2 * np.outer(units, units)
            m[k][t] = rng.normal(size=n) * np.sqrt(np.diag(base)) * case.get("mscale", 0.5) * units
    same = case.get("same")
    if same == "all":
        for k in keys[1:]:
            S[k], m[k] = dict(S[keys[0]]), dict(m[keys[0]])
    elif same == "two" and K > 1:
        S[keys[1]], m[keys[1]] = dict(S[keys[0]]), dict(m[keys[0]])
    elif same == "now":                 # experts agree at some times only
        for t in grid:
            if rng.random() < 0.5:
                for k in keys[1:]:
                    S[k][t], m[k][t] = S[keys[0]][t].copy(), m[keys[0]][t].copy()
    elif same == "late":                # experts agree from the middle on
        for t in grid[M // 2:]:
            for k in keys[1:]:
                S[k][t], m[k][t] = S[keys[0]][t].copy(), m[keys[0]][t].copy()
    sig = {k: {t: pd.DataFrame(s, index=cols, columns=cols) for t, s in d.items()} for k, d in S.items()}
    kind = case.get("means")
    if kind is None:
        mu = None
    elif kind == "series":
        mu = {k: {t: pd.Series(v, index=cols) for t, v in d.items()} for k, d in m.items()}
    else:
        mu = m
    return R, grid, sig, mu, keys


def positions(case, grid, ix):
    """requested times argument and the set of requested grid positions (from 1)"""
    t = case.get("times")
    if t is None:
        return None, set(range(1, len(grid) + 1))
    lo, hi = t
    req = [grid[q - 1] for q in range(lo, hi + 1)]
    kind = case.get("timestype", "list")
    arg = pd.Index(req) if kind == "index" else tuple(req) if kind == "tuple" else (x for x in req) if kind == "gen" else pd.Series(req) if kind == "series" else list(req)
    return arg, set(range(lo, hi + 1))


TIGHT = dict(wtol="1E-6", gtol="3E-4")
LOOSE = dict(wtol="1E-4", gtol="2E-2")


def btol(sig):
    """what floating point can promise of an inverse: 1e-7, more for covariances that are nearly singular"""
    worst = 1.0
    for d in sig.values():
        for x in d.values():
            S = np.asarray(x, dtype=float)
            u = 1 / np.sqrt(np.diag(S))
            worst = max(worst, float(np.linalg.cond(S * np.outer(u, u))))
    return "1E-7" if worst < 1e5 else f"{1e-12 * worst:.3E}"


def run_combine(case):
    from cvx.covariance.combination import from_sigmas
    R, grid, sig, mu, keys = problem(case)
    M, n, K = len(grid), R.shape[1], len(keys)
    times, req = positions(case, grid, R.index)
    window = case.get("window")
    fails = case.get("fails") or {}            # {grid position: mode}
    N = M - 1
    W = max(min(window or N, N), 1)
    expected = [q for q in range(W + 1, M + 1) if q in req]
    pulls, stream, ref = [], [], []
    zm = mu is None or bool(case.get("experts") == "iewma" and not case.get("means"))

    def pull(it):
        return next(it, StopIteration)

    def item(x):
        return {"k": "res", "t": perm([x.time], grid)[0], "w": nums(x.weights.values), "wl": perm(x.weights.index, keys),
                "cov": nmat(x.covariance.values), "rl": perm(x.covariance.index, R.columns), "cl": perm(x.covariance.columns, R.columns),
                "mean": nums(x.mean.values), "ml": perm(x.mean.index, R.columns)}

    def go():
        it = None
        comb = from_sigmas(sig, R, mu)
        if case.get("used"):                # it has been solved before, with another window
            for x in comb.solve(window=case["used"]):
                pass
        with Solver() as S:
            kw = dict(case.get("kw") or {})
            it = comb.solve(times=times, **kw) if window is None else comb.solve(window=window, times=times, **kw)
            for j in range(M + 5):
                S.mode = fails.get(str(expected[j])) if j < len(expected) else None
                k0 = len(S.log)
                x = pull(it)
                if x is StopIteration:
                    break
                pulls.append(S.log[k0:])
                if x is None:
                    stream.append({"k": "none"})
                else:
                    stream.append(item(x))
    _, err = guarded(go, limit=120)
    if fails:                                  # the same run with no failures
        def again():
            with Solver():
                ref.extend(from_sigmas(sig, R, mu).solve(window=window, times=positions(case, grid, R.index)[0], **(case.get("kw") or {})))
        if guarded(again, limit=120)[1]:
            ref.clear()
    elif case.get("full") and times is not None:    # the run that asks for no particular time
        if guarded(lambda: ref.extend(from_sigmas(sig, R, mu).solve(window=window, **(case.get("kw") or {}))), limit=120)[1]:
            ref.clear()
    alone = {}                                 # every time asked for on its own, under the same solver options
    if case.get("alone"):
        for q in expected:
            r, e = guarded(lambda: list(from_sigmas(sig, R, mu).solve(window=W, times=[grid[q - 1]], **(case.get("kw") or {}))), limit=120)
            if not e and len(r) == 1:
                alone[q] = r[0] is not None
                ref += r
    refs = {x.time: item(x) for x in ref if x is not None}
    natural = not fails and not case.get("kw")
    failed = {}
    for j, q in enumerate(expected):
        log = pulls[j] if j < len(pulls) else []
        ended = bool(log) and log[-1] not in GOOD
        failed[q] = ("maybe" if case.get("hard") and ended else "no") if natural else ("yes" if ended else "no")
        if q in alone:
            failed[q] = "no" if alone[q] else "yes"
    accurate = all(log[-1:] != ["optimal_inaccurate"] for log in pulls)
    run = {"kind": "combine", "window": window or 0, "reject": False, "err": err or "", "zeromean": zm, "btol": btol(sig),
           "case": dict(case), "note": [p[-1:] for p in pulls], **(TIGHT if accurate else LOOSE), "stream": stream, "ev": []}
    for q, t in enumerate(grid, 1):
        run["ev"].append({"S": [nmat(sig[k][t].values) for k in keys],
                          "mu": [nums(np.zeros(n) if mu is None else np.asarray(mu[k][t], dtype=float)) for k in keys],
                          "r": nums(R.loc[t].values), "req": q in req, "fail": failed.get(q, "no"), "ref": refs.get(t, {"k": "none"})})
    return run


# ------------------------------------------------------------------ C18

REJECTS = ["mean_missing", "mean_extra", "expert_short_end", "expert_short_start", "expert_hole", "expert_shift", "mean_shift", "times_gap", "times_reversed",
           "times_repeat", "times_unknown", "times_first", "times_swapped", "times_beyond", "expert_shift_both", "times_unknown_last", "mean_no_expert",
           "times_inner_swap", "times_inner_repeat", "times_first_repeat", "times_inner_unknown"]


def run_reject(case):
    from cvx.covariance.combination import from_sigmas
    R, grid, sig, mu, keys = problem(case)
    rng = np.random.default_rng(case["seed"] + 1)
    how, M = case["how"], len(grid)
    k = keys[int(rng.integers(len(keys)))]
    mid = grid[int(rng.integers(1, M - 1))]
    times = None
    z = int(rng.integers(1, M - 3))

    def both(f):
        sig[k] = f(sig[k])
        if mu is not None:
            mu[k] = f(mu[k])
    if how == "mean_missing":
        mu[k] = {t: v for t, v in mu[k].items() if t != mid}
    elif how == "mean_extra":
        sig = {q: {t: v for t, v in s.items() if t != grid[-1]} for q, s in sig.items()}
        mu = {q: (m if q == k else {t: v for t, v in m.items() if t != grid[-1]}) for q, m in mu.items()}
    elif how == "mean_shift":
        mu[k] = dict(zip(grid[1:] + ["later"], mu[k].values()))
    elif how == "mean_no_expert":
        mu = {q: v for q, v in mu.items() if q != k}
    elif how == "expert_short_end":
        both(lambda d: {t: v for t, v in d.items() if t != grid[-1]})
    elif how == "expert_short_start":
        both(lambda d: {t: v for t, v in d.items() if t != grid[0]})
    elif how == "expert_hole":
        both(lambda d: {t: v for t, v in d.items() if t != mid})
    elif how in ("expert_shift", "expert_shift_both"):
        sig = {q: {t: v for t, v in s.items() if t != (grid[-1] if q != k else grid[0])} for q, s in sig.items()}
        mu = None if mu is None else {q: {t: v for t, v in s.items() if t != (grid[-1] if q != k else grid[0])} for q, s in mu.items()}
    elif how == "times_gap":
        times = [grid[z], grid[z + 2]]
    elif how == "times_reversed":
        times = [grid[z + 2], grid[z + 1], grid[z]]
    elif how == "times_repeat":
        times = [grid[z], grid[z + 1], grid[z + 1]]
    elif how == "times_swapped":
        times = [grid[z], grid[z + 2], grid[z + 1]]
    elif how == "times_inner_swap":     # the ends are in place
        z = min(z, M - 5)
        times = [grid[z], grid[z + 2], grid[z + 1], grid[z + 3]]
    elif how == "times_inner_repeat":
        times = [grid[z], grid[z + 2], grid[z + 2]]
    elif how == "times_first_repeat":
        times = [grid[z], grid[z], grid[z + 2]]
    elif how == "times_inner_unknown":
        times = [grid[z], pd.Timestamp("1950-01-01") if isinstance(grid[0], pd.Timestamp) else -99, grid[z + 2]]
    elif how == "times_unknown":
        times = [pd.Timestamp("1950-01-01") if isinstance(grid[0], pd.Timestamp) else -99]
    elif how == "times_unknown_last":
        times = [grid[z], grid[z + 1], pd.Timestamp("2100-01-01") if isinstance(grid[0], pd.Timestamp) else 10 ** 6]
    elif how == "times_first":          # no lagged prediction at the first grid time
        times = [grid[0], grid[1]]
    elif how == "times_beyond":
        times = [grid[-2], grid[-1], R.index[-1]]
    stream = []

    def go():
        for x in from_sigmas(sig, R, mu).solve(window=case.get("window"), times=times):
            stream.append({"k": "none" if x is None else "res"})
    _, err = guarded(go)
    return {"kind": "reject", "btol": "1E-7", "window": 0, "reject": True, "err": err or "", "zeromean": True, "case": dict(case), **TIGHT,
            "stream": stream, "ev": [{"how": how}]}


def execute(case):
    return (run_reject if case.get("how") else run_combine)(case)


# ------------------------------------------------------------------ scenarios

def rand_case(rng, **kw):
    n = int(rng.choice([1, 2, 3, 4, 6], p=[0.1, 0.35, 0.3, 0.15, 0.1]))
    K = int(rng.choice([1, 2, 3, 4, 5], p=[0.08, 0.37, 0.3, 0.15, 0.1]))
    M = int(kw.get("M") or rng.integers(3, 14))
    c = {"seed": int(rng.integers(1 << 31)), "n": n, "K": K, "M": M, "lead": int(rng.integers(0, 3)), "tail": int(rng.integers(0, 3)),
         "step": int(rng.choice([1, 1, 1, 2])), "window": [None, 1, 2, 3, 4, M - 2, M - 1, M, M + 3][rng.integers(9)] or None,
         "index": IDX[rng.integers(len(IDX))], "labels": LABS[rng.integers(len(LABS))], "names": ["pair", "int", "rev", "expert"][rng.integers(4)],
         "means": [None, "array", "series"][rng.integers(3)], "scale": float(rng.choice([0.01, 0.01, 1.0, 20.0, 1e-3])),
         "bias": float(rng.choice([0.0, 0.3, 0.8])), "strength": float(rng.choice([0.2, 0.6, 1.0]))}
    if rng.random() < 0.4 and M > 2 and "times" not in kw:
        lo = int(rng.integers(2, M + 1))
        c["times"] = (lo, int(rng.integers(lo, M + 1)))
        c["timestype"] = ["list", "index", "tuple", "gen", "series"][rng.integers(5)]
    c.update(kw)
    return c


def from_model(beh, rng, failing=True):
    c = rand_case(rng, M=beh["M"], window=beh["window"] or None, times=(beh["lo"], beh["hi"]), timestype=["list", "index"][rng.integers(2)],
                  n=int(rng.integers(1, 4)), K=int(rng.integers(1, 4)))
    if beh["lo"] == 2 and beh["hi"] == beh["M"] and rng.random() < 0.7:
        c["times"] = None
    if beh["fails"]:
        modes = ["error", "infeasible", "iterlimit", "timelimit"]
        m = modes[rng.integers(4)]
        c["fails"] = {str(q): (m if rng.random() < 0.6 else modes[rng.integers(4)]) for q in beh["fails"]}
    return c


def mc_behaviours(result):
    out = []
    for p in result.tagged("BEH"):
        m = re.match(r'<<"BEH", "(.*)">>$', p)
        out.append(json.loads(m.group(1).replace('\\"', '"')))
    return sorted(out, key=json.dumps)
