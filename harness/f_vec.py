"""Family 7: vectorised (C29) and low-rank (C31) iterated EWMA against Iewma and LowRank."""
from __future__ import annotations

import numpy as np
import pandas as pd

import f_ewma
import f_trader
from vlib import guarded, nmat, num, nums, perm


def returns(case):
    """complete data: nothing missing, nothing zero"""
    R = f_ewma.frame(case)
    assert np.isfinite(R.values).all()
    return R


def reference(R, case):
    """plain streaming recursion, only to propose eigenvectors and (low rank) adjusted returns to the specification"""
    def avg(y, h, clip=None, mp=0):
        b = 0.5 ** (1 / h)
        out = np.empty_like(y)
        s, w = 0.0 * y[0], 0.0
        for t in range(len(y)):
            x = y[t]
            if clip and t >= mp + 1:
                c = clip * s / w
                x = np.where(c == 0, x, np.clip(x, -c, c))
            s, w = b * s + x, b * w + 1
            out[t] = s / w
        return out
    X = R.values
    mean, c = case["mean"], case["clip"]
    X = X - avg(X, case.get("hm1") or case["hv"]) if mean else X
    mp = case["mpv"]
    V = np.sqrt(avg(X ** 2, case["hv"], c and c ** 2, mp))[mp - 1:]
    A = X[mp - 1:] / V
    if c:
        A = np.clip(A, -c, c)
    if mean:
        A = A - avg(A, case.get("hm2") or case["hc"])
    n = X.shape[1]
    C = avg((A[:, :, None] * A[:, None, :]).reshape(len(A), n * n), case["hc"]).reshape(-1, n, n)
    return A, C


def eig(M):
    if not np.isfinite(M).all():
        n = len(M)
        return nums(np.zeros(n)), nmat(np.eye(n))
    lam, Q = np.linalg.eigh((M + M.T) / 2)
    return nums(lam[::-1]), nmat(Q[:, ::-1])


def params(case, n):
    c = case["clip"]
    return {"n": n, "hv": num(case["hv"]), "hc": num(case["hc"]), "hm1": num(case.get("hm1") or case["hv"]), "hm2": num(case.get("hm2") or case["hc"]),
            "mpv": case["mpv"], "mpc": case["mpc"], "clip": "" if c is None else num(c), "mean": bool(case["mean"]), "nan0": True}


def run_vec(case):
    f_trader.modules()
    from cvx.covariance.ewma import iterated_ewma as stream
    from experiments.utils.iterated_ewma_vec import iterated_ewma
    R = returns(case)
    n, mp = R.shape[1], case["mpv"]
    kw = dict(min_periods_vola=mp, min_periods_cov=case["mpc"], mean=case["mean"], clip_at=case["clip"])
    low = {"low_rank": case["rank"]} if case["rank"] else {}
    res, e1 = guarded(lambda: iterated_ewma(R.copy(), case["hv"], case["hc"], **({} if case.get("defaults") else kw), **low))
    ref, e2 = guarded(lambda: {x.time: x for x in stream(R.copy(), case["hv"], case["hc"], **kw)})
    err = e1 or e2 or ""
    means, covs = {}, {}
    if not err:
        covs = dict(res.covariance) if case["mean"] else dict(res)
        means = dict(res.mean) if case["mean"] else {}
        if case["mean"] and list(means) != list(covs):
            err = "times of means and covariances differ"
    pos = perm(covs.keys(), R.index)
    at = {q: t for q, t in zip(pos, covs)}
    C = reference(R, case)[1] if case["rank"] and len(R) >= mp else []
    ev = []
    for t in range(len(R)):
        e = {"r": nums(R.values[t]), "has": t + 1 in at}
        if e["has"]:
            c = covs[at[t + 1]]
            m = means.get(at[t + 1])
            e["o"] = {"cov": nmat(c.values), "rl": perm(c.index, R.columns), "cl": perm(c.columns, R.columns),
                      "m": nums(np.zeros(n) if m is None else m.values), "ml": [] if m is None else perm(m.index, R.columns)}
            x = (ref or {}).get(R.index[t])
            e["shas"] = x is not None
            if x is not None:
                e["scov"], e["sm"] = nmat(x.covariance.values), nums(pd.Series(x.mean).values)
            if case["rank"]:
                M = C[t - mp + 1] if t - mp + 1 >= 0 else np.eye(n)
                v = np.sqrt(np.diag(M))
                e["lam"], e["Q"] = eig(M / np.outer(v, v))
        ev.append(e)
    return {"kind": "vec", "p": params(case, n), "rank": case["rank"], "emits": pos, "err": err, "ev": ev, "case": dict(case)}


def run_low(case):
    f_trader.modules()
    from experiments.utils.low_rank_ewma import low_rank_iterated_ewma
    R = returns(case)
    n, mp, r = R.shape[1], case["mpv"], case["rank"]
    kw = dict(min_periods_vola=mp, min_periods_cov=case["mpc"], mean=case["mean"], clip_at=case["clip"])
    kw.update({k: case[v] for k, v in (("mu_halflife1", "hm1"), ("mu_halflife2", "hm2")) if case.get(v) is not None})
    kw = {} if case.get("defaults") else kw
    res = []

    def go():
        for x in low_rank_iterated_ewma(R.copy(), case["hv"], case["hc"], rank=r, **kw):
            F, d = pd.DataFrame(x.covariance.F).copy(), pd.Series(x.covariance.d).copy()
            res.append((x.time, F, d, pd.Series(x.mean).copy(), pd.Series(x.volatility).copy()))
    _, err = guarded(go)
    pos = perm([x[0] for x in res], R.index)
    at = {q: k for k, q in enumerate(pos)}
    A, C = reference(R, case) if len(R) >= mp else ([], [])
    b0 = 0.5 ** (1 / case["hc"])
    ev = []
    last = None
    for t in range(len(R)):
        e = {"r": nums(R.values[t]), "has": t + 1 in at}
        cur = None
        if e["has"]:
            _, F, d, m, v = res[at[t + 1]]
            e["o"] = {"F": nmat(F.values), "d": nums(d.values), "rl": perm(F.index, R.columns), "dl": perm(d.index, R.columns), "m": nums(m.values), "ml": perm(m.index, R.columns), "v": nums(v.values), "vl": perm(v.index, R.columns)}
            k = t - mp + 1
            if k >= 0 and F.shape[0] == n:
                with np.errstate(all="ignore"):
                    cur = np.sqrt(np.diag(C[k])) [:, None] / v.values[:, None] * F.values
                    if last is not None:
                        w = (1 - b0) / (1 - b0 ** (k + 1))
                        M = (1 - w) * last @ last.T + w * np.outer(A[k], A[k])
                        s = 1 / np.sqrt(np.diag(M))
                        e["lam"], e["Q"] = eig(M * np.outer(s, s))
            if "lam" not in e:
                e["lam"], e["Q"] = eig(np.eye(n))
        last = cur
        ev.append(e)
    return {"kind": "low", "p": params(case, n), "rank": r, "emits": pos, "err": err or "", "ev": ev, "case": dict(case)}


def execute(case):
    # an asset whose centred adjusted returns are all zero (clipped to the same bound): correlations are 0/0
    while case["kind"] == "low" or case["rank"]:
        R = returns(case)
        if len(R) < case["mpv"]:
            break
        C = reference(R, case)[1]
        if len(C) < 2 or min(np.diag(c).min() for c in C[1:]) > 1e-12:
            break
        case = {**case, "seed": case["seed"] + 1, "clip": None}
    return {"vec": run_vec, "low": run_low}[case["kind"]](case)


def rand_case(rng, kind, **kw):
    n = int(rng.integers(2, 6))
    mean = bool(rng.random() < 0.4)
    lo = 2 if mean else 1
    c = {"kind": kind, "seed": int(rng.integers(1 << 31)), "n": n, "T": int(rng.integers(2, 22)), "scale": float(rng.choice([1.0, 0.01, 1e-3, 30.0])),
         "profile": [("S",), ("spike",), ("tiny",), ("spike", "tiny")][rng.integers(4)], "factor": bool(rng.random() < 0.5), "drift": [None, 1.0][rng.integers(2)],
         "index": ["days", "range", "str", "irregular", "float", "period", "unsorted", "newest", "tz"][rng.integers(9)], "labels": ["str", "unsorted", "int", "range", "tuple"][rng.integers(5)],
         "hv": float(rng.choice([0.5, 1, 2, 5, 10, 21, 100])), "hc": float(rng.choice([0.5, 1, 3, 7, 21, 63, 250])),
         "mpv": int(rng.integers(lo, 6)), "mpc": int(rng.integers(lo, 6)), "mean": mean, "clip": [None, None, 1.1, 2.0, 4.2, 100.0][rng.integers(6)]}
    if kind == "vec":
        c["n"] = int(rng.integers(1, 6))
        c["rank"] = int(rng.integers(1, c["n"] + 1)) if rng.random() < 0.4 else 0
    else:
        c["n"] = int(rng.integers(2, 7))
        c["rank"] = int(rng.integers(1, c["n"]))
        c["mpc"] = lo if rng.random() < 0.7 else c["mpc"]
        if rng.random() < 0.3:
            c["hm1"] = float(rng.choice([1, 4, 30]))
        if rng.random() < 0.3:
            c["hm2"] = float(rng.choice([2, 5, 40]))
    c.update(kw)
    return c
