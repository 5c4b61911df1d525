"""Family 11: the causal factor model against Factor.tla (C35).

cvx.linalg (principal components) is a dependency that is not installed here: a stand-in with its interface is given to
the code under test, and it notes the rows it was fitted on."""
from __future__ import annotations

import sys
import types
from collections import namedtuple

import numpy as np
import pandas as pd

import f_combine as fc
import f_score
import f_trader
from vlib import guarded, nmat, num, nums, perm

PCA = namedtuple("PCA", ["explained_variance", "factors", "exposure", "cov", "systematic", "idiosyncratic"])


class Pca:
    def __init__(self, R):
        self.R, self.fits = R, []

    def __call__(self, returns, n_components=10):
        X = returns - returns.mean()
        lam, Q = np.linalg.eigh(X.values.T @ X.values / max(1, len(X) - 1))
        E = Q[:, ::-1][:, :n_components].T
        E = E * np.sign(E[:, :1])
        rows = perm(returns.index, self.R.index)
        same = 0 not in rows and list(returns.columns) == list(self.R.columns) and bool(np.array_equal(returns.values, self.R.values[[q - 1 for q in rows]]))
        self.fits.append({"rows": rows, "same": same, "k": int(n_components), "E": nmat(E)})
        ex = pd.DataFrame(E, columns=returns.columns)
        fac = returns @ np.transpose(ex)
        sys_ = pd.DataFrame(fac.values @ E, index=returns.index, columns=returns.columns)
        return PCA(lam[::-1][:n_components] / lam.sum(), fac, ex, fac.cov(), sys_, returns - sys_)


def module(pca):
    m = types.ModuleType("cvx.linalg")
    m.pca = pca
    import cvx
    sys.modules["cvx.linalg"] = m
    cvx.linalg = m
    sys.modules.pop("experiments.utils.factor_model", None)
    import experiments.utils.factor_model as fm
    return fm


def weights_of(G, experts, found):
    """the solver's weights that blend the experts into G (untrusted: the specification checks the blend and its optimality)"""
    tri = lambda S: np.linalg.cholesky(np.linalg.inv(S))  # noqa: E731
    Ls, L = np.array([tri(S) for S in experts]), tri(G)
    best = np.full(len(experts), np.nan)
    dist = np.inf
    for w in found:
        d = np.abs(np.tensordot(w, Ls, 1) - L).max()
        if d < dist:
            best, dist = w, d
    return best


def run_factor(case):
    f_trader.modules()
    from cvx.covariance.ewma import iterated_ewma
    rng = np.random.default_rng(case["seed"])
    R = f_score.frame(case, rng)
    if case.get("spike"):
        R.iloc[rng.integers(len(R))] *= 8
    T, n = R.shape
    k, pairs = case["k"], [tuple(q) for q in case["pairs"]]
    pca = Pca(R.copy())
    fm = module(pca)
    kw = {}
    if not (case["freq"] == 20 and rng.random() < 0.5):
        kw["update_frequency"] = case["freq"]
    if case["memory"] != 250:
        kw["memory"] = case["memory"]
    gtol = "3E-4"
    models, found = [], []

    def go():
        nonlocal gtol
        with fc.Solver() as S:
            for m in fm.construct_cmiewma_factor_model(R.copy(), k, list(pairs), **kw):
                models.append(m)
            found.extend(w for vs in S.found for w in vs if w.shape == (len(pairs),))
            if any(x == "optimal_inaccurate" for x in S.log):
                gtol = "2E-2"
    _, err = guarded(go, limit=200)
    full, ll = {}, pd.Series(dtype=float)
    if err is None:
        res, err = guarded(lambda: (fm.from_factor_to_full_covariance(list(models)), fm.factor_log_likelihood(R.copy(), list(models))))
        full, ll = res or (full, ll)
    ev = []
    run = {"kind": "factor", "err": err or "", "R": nmat(R.values), "k": k, "memory": case["memory"], "freq": case["freq"], "pairs": [nums(q) for q in pairs], "gtol": gtol, "fits": pca.fits,
           "sizes": nums(np.sqrt((R.values ** 2).sum(axis=1).max()) * np.ones(n)), "fullstamps": perm(full.keys(), R.index) if err is None else [],
           "llstamps": perm(ll.index, R.index) if err is None else [], "ev": ev, "case": dict(case)}
    if err is not None:
        return run
    cache = {}
    for q, m in enumerate(models):
        E = m.exposure.values
        key = E.tobytes()
        if key not in cache:
            F = pd.DataFrame(R.values @ E.T, index=R.index)
            cache[key] = [{x.time: x.covariance.values for x in iterated_ewma(F, a, b, min_periods_vola=k, min_periods_cov=2 * k)} for a, b in pairs]
        sig = [c[m.time].copy() for c in cache[key]]
        sig[0] = sig[0] + 0.05 * np.diag(np.diag(sig[0]))
        G = m.factor_covariance.values
        fu = full.get(m.time)
        ev.append({"t": perm([m.time], R.index)[0], "E": nmat(E), "el": perm(m.exposure.columns, R.columns), "dl": perm(m.diagonal.index, R.columns), "d": nums(m.diagonal.values), "G": nmat(G),
                   "w": nums(weights_of(G, sig, found)), "full": nmat(fu.values), "fl": perm(fu.index, R.columns) if list(fu.index) == list(fu.columns) else [], "ll": num(ll.iloc[q])})
    return run


def execute(case):
    return run_factor(case)


def rand_case(rng, **kw):
    n = int(rng.integers(2, 6))
    k = int(rng.integers(1, min(n, 3) + 1))
    memory = 3 * k + 8 + int(rng.integers(0, 12))
    hs = [2, 5, 10, 21, 63]
    K = int(rng.integers(1, 4))
    pairs = []
    while len(pairs) < K:
        q = [float(rng.choice(hs)), float(rng.choice(hs))]
        q = [int(x) for x in q]
        if q not in pairs:
            pairs.append(q)
    freq = int(rng.choice([1, 2, 5, 7, 20]))
    c = {"kind": "factor", "seed": int(rng.integers(1 << 31)), "n": n, "k": k, "memory": memory, "freq": freq, "pairs": pairs, "T": memory + int(rng.choice([0, 1, 2, 6, 9, 14, 21, 25])),
         "scale": float(rng.choice([1.0, 0.01])), "index": ["days", "range", "str", "irregular", "float", "tz"][rng.integers(6)], "labels": ["str", "unsorted", "int", "range"][rng.integers(4)],
         "spike": bool(rng.random() < 0.3)}
    c.update(kw)
    return c
