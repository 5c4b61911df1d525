"""Family 9: precision form of factor models against Precision (C32)."""
from __future__ import annotations

import inspect

import numpy as np

import f_trader
from f_score import pd_matrix
from vlib import guarded, nmat, nums


def model(case):
    rng = np.random.default_rng(case["seed"])
    n, r, s = case["n"], case["r"], case["scale"]
    F = rng.normal(size=(n, r)) * s * np.exp(0.5 * rng.normal(size=n))[:, None]
    if case.get("flat"):
        F[:, -1] = 0.0
    d = s ** 2 * (0.05 + rng.random(n)) * np.exp(rng.normal(size=n) * case.get("rest", 0.5))
    if case.get("tiny"):               # an asset the factors explain all but completely
        d[0] = case["tiny"] * np.median(d)
    if case.get("spread"):             # assets of very different variance
        u = np.exp(case["spread"] * rng.normal(size=n))
        F, d = F * u[:, None], d * u ** 2
    S = F @ F.T + np.diag(d) if case.get("own") else pd_matrix(n, rng, s)
    return rng, S, F, d


def snap(st):
    """what a state reports, and the model it builds"""
    o, e1 = guarded(st.objective)
    b, e2 = guarded(st.build)
    if e1 or e2:
        return None, e1 or e2
    F, d = b
    return {"e": nums(np.asarray(st.ek).flatten()), "G": nmat(np.asarray(st.Gk)), "obj": nums([o])[0], "bF": nmat(F), "bd": nums(np.asarray(d).flatten())}, None


def run_state(case):
    f_trader.modules()
    import cvxpy as cp
    import experiments.utils.ccp_regularize as ccp
    rng, S, F, d = model(case)
    cls = ccp._State2 if case["two"] else ccp._State
    st, err = guarded(lambda: cls(S.copy(), F.copy(), d.copy()))
    ev = []
    if err is None:
        e, err = snap(st)
        if err is None:
            ev.append(e)
    if err is None and case["iters"]:
        solve = cp.Problem.solve
        try:                # MOSEK is not installed
            cp.Problem.solve = lambda self, *a, **k: solve(self, *a, **{**k, "solver": "CLARABEL"})

            def go():
                if not case["two"]:
                    st.construct_problem()
                for _ in range(case["iters"]):
                    st.iterate()
                    e, x = snap(st)
                    if x:
                        raise RuntimeError(x)
                    ev.append(e)
            _, err = guarded(go)
        finally:
            cp.Problem.solve = solve
    return {"kind": "state", "rank": case["r"], "exact": not case["two"], "S": nmat(S), "F": nmat(F), "d": nums(d), "err": err or "", "ev": ev, "case": dict(case)}


def run_grad(case):
    f_trader.modules()
    import experiments.utils.ccp_regularize as ccp
    rng, S, F, d = model(case)
    n, r = F.shape
    # any positive definite diag e - G G'
    e = 1 / d
    G = rng.normal(size=(n, r))
    G *= 0.9 * rng.random() / np.sqrt(np.linalg.norm(G.T @ (d[:, None] * G), 2))
    Gk = G if case["same"] else G * (0.5 + rng.random())

    step = getattr(ccp, "_solve_proximal_gradient", None)      # a private helper: not every version need have it
    ev, err = [], None
    if step is not None and list(inspect.signature(step).parameters) == ["e_init", "G_init", "Gk", "Sigma", "maxiters"]:
        res, err = guarded(lambda: step(e.copy(), G.copy(), Gk.copy(), S.copy(), maxiters=1))
        if err is None:
            se, sG = res
            ev = [{"e": nums(e), "G": nmat(G), "Gk": nmat(Gk), "se": nums(se), "sG": nmat(sG)}]
    return {"kind": "grad", "rank": r, "S": nmat(S), "F": nmat(F), "d": nums(d), "err": err or "", "ev": ev, "case": dict(case)}


def execute(case):
    return {"state": run_state, "grad": run_grad}[case["kind"]](case)


def rand_case(rng, kind, **kw):
    n = int(rng.integers(1, 8))
    c = {"kind": kind, "seed": int(rng.integers(1 << 31)), "n": n, "r": int(rng.integers(1, n + 1)), "scale": float(rng.choice([1.0, 1.0, 0.1, 10.0])),
         "two": bool(rng.integers(2)), "own": bool(rng.random() < 0.3), "flat": bool(rng.random() < 0.1), "same": bool(rng.integers(2)), "iters": 0}
    c.update(kw)
    return c
