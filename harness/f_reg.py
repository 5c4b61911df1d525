"""Family 4: regularisation against Regularize.tla (C19-C21)."""
from __future__ import annotations

import numpy as np
import pandas as pd

from f_ewma import index, labels
from vlib import guarded, nmat, nums, perm

SHAPES = ["full", "full", "deficient", "one", "identity", "equi", "block", "near", "factor", "negcorr"]


def corr(kind, n, rng):
    if kind == "identity":
        return np.eye(n)
    if kind == "equi":
        return np.full((n, n), 0.3) + 0.7 * np.eye(n)
    if kind == "block":
        a = np.eye(n)
        a[0, -1] = a[-1, 0] = 0.5 if n > 1 else 1.0
        return a
    if kind == "negcorr":
        return np.full((n, n), -0.9 / max(1, n - 1)) + (1 + 0.9 / max(1, n - 1)) * np.eye(n)
    m = {"full": n + 3, "deficient": max(1, n - 1), "one": 1, "near": n + 1, "factor": 2}[kind]
    X = rng.normal(size=(n, m))
    S = X @ X.T
    if kind == "near":
        S = S * 1e-6 + np.outer(X[:, 0], X[:, 0])
    if kind == "factor":
        S = S + np.diag(0.1 + rng.random(n))
    return S


def sigma(kind, n, rng, spread, scale):
    S = corr(kind, n, rng)
    d = scale * np.exp(spread * rng.normal(size=n))
    S = S * np.outer(d, d)
    return (S + S.T) / 2


def stamps(case, rng):
    ix = list(index(case["index"], case["T"]))
    order = {"sorted": range(len(ix)), "reverse": range(len(ix))[::-1], "random": rng.permutation(len(ix))}[case["order"]]
    return [ix[i] for i in order]


def problem(case):
    rng = np.random.default_rng(case["seed"])
    ts = stamps(case, rng)
    out = {}
    for t in ts:
        S = sigma(case["shape"], case["n"], rng, case["spread"], case["scale"])
        cols = labels(case["labels"], case["n"], rng)
        out[t] = pd.DataFrame(S, index=cols, columns=cols)
    return rng, out


def take(gen, ts):
    out = []
    for t, v in gen:
        out.append((ts.index(t) + 1 if t in ts else 0, v))
        if len(out) > len(ts):
            break
    return out


def execute(case):
    from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance
    rng, sig = problem(case)
    ts = list(sig)
    n, r = case["n"], case["r"]
    run = {"what": case["what"], "r": r, "case": dict(case), "errFull": "", "errLow": "", "errEM": "", "nFull": -1, "nLow": -1, "nEM": -1}
    ev = []
    none = {"t": 0}
    if case["what"] == "reg":
        full, e1 = guarded(lambda: take(regularize_covariance({t: s.copy() for t, s in sig.items()}, r=r), ts))
        low, e2 = guarded(lambda: take(regularize_covariance({t: s.copy() for t, s in sig.items()}, r=r, low_rank_format=True), ts))
        run["errFull"], run["errLow"] = e1 or "", e2 or ""
        if e1 is None:
            run["nFull"] = len(full)
        if e2 is None:
            run["nLow"] = len(low)
        for k, t in enumerate(ts):
            S = sig[t]
            v = np.sqrt(np.diag(S))
            lam, Q = np.linalg.eigh(S.values / np.outer(v, v))
            e = {"S": nmat(S.values), "lam": nums(lam[::-1]), "Q": nmat(Q[:, ::-1]), "full": none, "low": none}
            if e1 is None and k < len(full):
                o, x = full[k]
                e["full"] = {"t": o, "rl": perm(x.index, S.columns), "cl": perm(x.columns, S.columns), "cov": nmat(x.values)}
            if e2 is None and k < len(low):
                o, x = low[k]
                e["low"] = {"t": o, "rl": perm(x.F.index, S.columns), "dl": perm(x.d.index, S.columns), "F": nmat(x.F.values), "d": nums(x.d.values)}
            ev.append(e)
    else:
        init = {}
        src = case["start"]
        for t in [ts[i] for i in rng.permutation(len(ts))]:
            S = sig[t]
            sd = np.sqrt(np.diag(S.values))
            if src == "reg":
                (_, x), = regularize_covariance({t: S}, r=r, low_rank_format=True)
                d = np.maximum(x.d.values, 1e-3 * sd ** 2)
                F = x.F.values
            elif src == "exact":
                F = rng.normal(size=(n, r)) * sd[:, None] * 0.5
                d = sd ** 2 * (0.2 + rng.random(n))
                sig[t] = S = pd.DataFrame(F @ F.T + np.diag(d), index=S.columns, columns=S.columns)
            elif src == "zero":
                F = np.zeros((n, r))
                F[:, 0] = sd * rng.normal(size=n)
                d = sd ** 2 * (0.2 + rng.random(n))
            else:
                F = rng.normal(size=(n, r)) * sd[:, None] * case.get("fscale", 0.7)
                d = sd ** 2 * np.exp(rng.normal(size=n)) * case.get("dscale", 0.5)
            cols = list(range(r)) if case.get("fcols") != "names" else [f"f{i}" for i in range(r)]
            from cvx.covariance.regularization import LowRankDiag
            init[t] = LowRankDiag(F=pd.DataFrame(F, index=S.columns, columns=cols), d=pd.Series(d, index=S.columns))
        keep = {t: (nmat(init[t].F.values), nums(init[t].d.values)) for t in ts}
        S0 = {t: nmat(sig[t].values) for t in ts}
        em, e3 = guarded(lambda: take(em_regularize_covariance({t: sig[t].copy() for t in ts}, dict(init)), ts))
        run["errEM"] = e3 or ""
        if e3 is None:
            run["nEM"] = len(em)
        for k, t in enumerate(ts):
            e = {"S": S0[t], "F0": keep[t][0], "d0": keep[t][1], "em": none}
            if e3 is None and k < len(em):
                o, x = em[k]
                e["em"] = {"t": o, "rl": perm(x.F.index, sig[t].columns), "dl": perm(x.d.index, sig[t].columns), "F": nmat(x.F.values), "d": nums(x.d.values)}
            ev.append(e)
    run["ev"] = ev
    return run


def rand_case(rng, what, **kw):
    n = int(rng.integers(1, 8))
    c = {"what": what, "seed": int(rng.integers(1 << 31)), "n": n, "r": int(rng.integers(1, n + 1)), "T": int(rng.choice([1, 2, 3, 5])),
         "shape": SHAPES[rng.integers(len(SHAPES))], "spread": float(rng.choice([0.3, 1.0, 4.0])), "scale": float(rng.choice([1, 0.01, 100])),
         "index": ["days", "range", "str", "irregular", "period", "unsorted", "newest", "tz"][rng.integers(8)], "labels": ["str", "unsorted", "int", "tuple", "range"][rng.integers(5)],
         "order": ["sorted", "reverse", "random"][rng.integers(3)]}
    if what == "em":
        c["start"] = ["reg", "rand", "rand", "exact", "zero"][rng.integers(5)]
        c["shape"] = ["full", "full", "deficient", "factor", "equi", "near"][rng.integers(6)]
        c["spread"] = float(rng.choice([0.3, 1.0]))
        c["fcols"] = ["range", "names"][rng.integers(2)]
        c["fscale"], c["dscale"] = float(rng.choice([0.1, 0.7, 3.0])), float(rng.choice([0.05, 0.5, 2.0]))
    c.update(kw)
    return c
