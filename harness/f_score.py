"""Family 6: scores, rolling windows, smoothing and realised covariances against Scores.tla (C26-C28, C33)."""
from __future__ import annotations

import copy

import numpy as np
import pandas as pd

import f_trader
from f_ewma import index, labels
from vlib import guarded, nmat, num, nums, perm


def pd_matrix(n, rng, scale, spread=0.7, extra=3):
    X = rng.normal(size=(n, n + extra)) * np.exp(spread * rng.normal(size=n))[:, None] * scale
    S = X @ X.T / (n + extra)
    return (S + S.T) / 2


def eigen(S):
    v = np.sqrt(np.diag(S))
    lam, Q = np.linalg.eigh(S / np.outer(v, v))
    return nums(lam[::-1]), nmat(Q[:, ::-1])


def frame(case, rng, T=None):
    T = T or case["T"]
    n = case["n"]
    S = pd_matrix(n, rng, case["scale"], case.get("spread", 0.7))
    X = rng.normal(size=(T, n)) @ np.linalg.cholesky(S).T
    return pd.DataFrame(X, index=index(case["index"], T), columns=labels(case["labels"], n, rng))


def run_ll(case):
    f_trader.modules()
    from experiments.utils.experiment_utils import log_likelihood, log_likelihood_sequential
    rng = np.random.default_rng(case["seed"])
    T, n = case["T"], case["n"]
    S = np.array([pd_matrix(n, rng, case["scale"], case.get("spread", 0.7)) for _ in range(T)])
    R = rng.normal(size=(T, n)) * case["scale"] * (1 + 5 * (rng.random((T, 1)) < 0.2))
    if "spread" in case:         # units of very different size
        R = R / case["scale"] * np.sqrt(np.diagonal(S, axis1=1, axis2=2))
    M = rng.normal(size=(T, n)) * case["scale"] if case["means"] else None
    kw = {} if case["c"] == 1 else {"scale": case["c"]}
    a = (R.copy(), S.copy()) if M is None else (R.copy(), S.copy(), M.copy())
    v, e1 = guarded(lambda: log_likelihood(*copy.deepcopy(a), **kw))
    q, e2 = guarded(lambda: log_likelihood_sequential(*copy.deepcopy(a), **kw))
    err = e1 or e2 or ""
    if not err:
        v, q = np.asarray(v, dtype=float), np.asarray(q, dtype=float)
        if v.shape != (T,) or q.shape != (T,):
            err = f"shapes {v.shape} {q.shape}"
    ev = [{"r": nums(R[t]), "m": nums(M[t] if M is not None else np.zeros(n)), "S": nmat(S[t]), "v": "nan" if err else num(v[t]), "q": "nan" if err else num(q[t])} for t in range(T)]
    return {"kind": "ll", "scale": num(case["c"]), "err": err, "ev": ev, "case": dict(case)}


def dated(case):
    """predictions for some of the times, in some order, and the returns"""
    rng = np.random.default_rng(case["seed"])
    R = frame(case, rng)
    T = len(R)
    n = case["n"]
    at = np.flatnonzero(rng.random(T) < 0.8)
    if not len(at):
        at = np.arange(T)
    if case["order"] == "random":
        at = rng.permutation(at)
    u = np.exp(case.get("spread", 0.0) * rng.normal(size=n))
    S = {R.index[p]: pd.DataFrame(pd_matrix(n, rng, case["scale"]) * np.outer(u, u), index=R.columns, columns=R.columns) for p in at}
    M = pd.DataFrame(rng.normal(size=(T, n)) * case["scale"] * u, index=R.index, columns=R.columns) if case["means"] else None
    if "spread" in case:
        R = pd.DataFrame(rng.normal(size=(T, n)) * case["scale"] * u, index=R.index, columns=R.columns)
    return rng, R, at, S, M


def run_dated(case):
    f_trader.modules()
    import experiments.utils.experiment_utils as xu
    from cvx.covariance.regularization import LowRankDiag
    rng, R, at, S, M = dated(case)
    n, r, form = case["n"], case["r"], case["form"]
    kw = {} if M is None else {"means": M}
    low = {}
    for t, s in S.items():
        F = rng.normal(size=(n, r)) * case["scale"]
        u = np.exp(case.get("spread", 0.0) * rng.normal(size=n))
        low[t] = LowRankDiag(F=pd.DataFrame(F * u[:, None], index=R.columns), d=pd.Series(case["scale"] ** 2 * (0.2 + rng.random(n)) * u ** 2, index=R.columns))
    if form == "cov":
        f = lambda: xu.log_likelihood_regularized(R.copy(), dict(S), **kw)  # noqa: E731
    elif form == "rank":
        f = lambda: xu.log_likelihood_regularized(R.copy(), dict(S), r=r, **kw)  # noqa: E731
    elif form == "low":
        f = lambda: xu.log_likelihood_low_rank(R.copy(), dict(low), **kw)  # noqa: E731
    else:
        M = None
        f = lambda: xu.em_low_rank_log_likelihood(R.copy(), dict(S), r)  # noqa: E731
    v, err = guarded(f)
    stamps = perm(v.index, R.index) if err is None else []
    pos = {p: k for k, p in enumerate(stamps)}
    ev = []
    for p in at:
        t = R.index[p]
        has = int(p) + 1 in pos
        e = {"at": int(p) + 1, "has": has, "v": num(v.iloc[pos[int(p) + 1]]) if has else "nan", "m": [] if M is None else nums(M.loc[t].values)}
        if form == "low":
            e.update(F=nmat(low[t].F.values), d=nums(low[t].d.values))
        else:
            lam, Q = eigen(S[t].values)
            e.update(S=nmat(S[t].values), lam=lam, Q=Q)
        ev.append(e)
    return {"kind": "dated", "form": form, "r": r, "R": nmat(R.values), "stamps": stamps, "err": err or "", "ev": ev, "case": dict(case)}


def run_mse(case):
    f_trader.modules()
    from experiments.utils.experiment_utils import MSE
    rng, R, at, S, _ = dated(case)
    v, err = guarded(lambda: MSE(R.copy(), dict(S)))
    stamps = perm(v.index, R.index) if err is None else []
    ev = [{"at": int(p) + 1, "S": nmat(S[R.index[p]].values), "v": num(v.iloc[k]) if err is None and k < len(v) else "nan"} for k, p in enumerate(at)]
    return {"kind": "mse", "R": nmat(R.values), "stamps": stamps, "err": err or "", "ev": ev, "case": dict(case)}


def emitted(res, ix, cols):
    """results by position of their time"""
    stamps = perm(res.keys(), ix)
    return stamps, {p: {"rl": perm(x.index, cols), "cl": perm(x.columns, cols), "cov": nmat(x.values)} for p, x in zip(stamps, res.values())}


def run_roll(case):
    f_trader.modules()
    from experiments.utils.experiment_utils import rolling_window
    rng = np.random.default_rng(case["seed"])
    R = frame(case, rng)
    if case.get("jump"):
        R.iloc[rng.integers(len(R))] *= 30.0
    if case.get("int"):
        R = (R / case["scale"] * 5).round().astype(int)
    args = {} if case.get("mp") is None else {"min_periods": case["mp"]}
    res, err = guarded(lambda: rolling_window(R.copy(), case["memory"], **args))
    stamps, by = emitted(res, R.index, R.columns) if err is None else ([], {})
    mp = 20 if case.get("mp") is None else max(1, case["mp"])
    ev = [{"r": nums(R.values[t]), "has": t + 1 in by, **by.get(t + 1, {})} for t in range(len(R))]
    return {"kind": "roll", "memory": case["memory"], "mp": mp, "sizes": nums(np.abs(R.values).max(0)), "stamps": stamps, "err": err or "", "ev": ev, "case": dict(case)}


def smoothing(case):
    """the optional arguments of the smoothing"""
    kw = {"min_periods": case["wait"]} if case.get("wait") else {}
    return {**kw, "clip_at": case["clip"]} if case.get("clip") else kw


def clipping(case):
    return {"clip": num(case["clip"]) if case.get("clip") else "", "mp": case.get("wait") or 0}


def run_smooth(case):
    f_trader.modules()
    from experiments.utils.iterated_ewma_vec import ewma
    rng = np.random.default_rng(case["seed"])
    n, T = case["n"], case["T"]
    ix, cols = index(case["index"], T), labels(case["labels"], n, rng)
    Ms = {t: pd.DataFrame(pd_matrix(n, rng, case["scale"]), index=cols, columns=cols) for t in ix}
    for t in ix[:case.get("late", 0)]:      # the last asset is listed late
        Ms[t].iloc[-1] = Ms[t].iloc[:, -1] = 0.0
    if case.get("jump"):
        for t in ix:
            Ms[t] *= 50.0 if rng.random() < 0.2 else 1.0
    res, err = guarded(lambda: dict(ewma({t: m.copy() for t, m in Ms.items()}, case["h"], **smoothing(case))))
    stamps, by = emitted(res, ix, pd.DataFrame(columns=cols).columns) if err is None else ([], {})
    ev = [{"M": nmat(Ms[t].values), "has": k + 1 in by, **by.get(k + 1, {})} for k, t in enumerate(ix)]
    big = np.sqrt(np.max([np.diag(m.values) for m in Ms.values()], axis=0))
    return {"kind": "smooth", "n": n, "h": num(case["h"]), **clipping(case), "sizes": nums(big), "stamps": stamps, "err": err or "", "ev": ev, "case": dict(case)}


def run_day(case):
    f_trader.modules()
    import experiments.utils.experiment_utils as xu
    rng = np.random.default_rng(case["seed"])
    n, T = case["n"], case["T"]
    ix = list(index(case["index"], T))
    per = [int(rng.choice([1, 2, 3, 7])) if case["ragged"] else int(case["per"]) for _ in ix]
    stamps = [t for t, k in zip(ix, per) for _ in range(k)]
    R = frame({**case, "index": "range"}, rng, T=len(stamps))
    if case.get("quiet"):            # assets that do not move all day, or hardly
        R = R.where(pd.DataFrame(rng.random((len(R), n)) < 0.5, index=R.index, columns=R.columns), [0.0, 1e-9 * (not case.get("clip"))][rng.integers(2)] * case["scale"])
    R.index = pd.Index(stamps) if case["index"] != "period" else pd.PeriodIndex(stamps)
    if case.get("interleave"):
        o = rng.permutation(len(R))
        R = R.iloc[o]
    days = list(dict.fromkeys(R.index))
    h = case.get("h")
    vol, e1 = guarded(lambda: dict(xu.realized_volas(R.copy())))
    if h is None:
        # without smoothing: a private helper, not every version need have it
        daily = getattr(xu, "_realized_covariance", None)
        if daily is None:
            h = 5.0
    if h is None:
        cov, e2 = guarded(lambda: dict(daily(R.copy())))
    else:
        cov, e2 = guarded(lambda: dict(xu.realized_ewma(R.copy(), h, **smoothing(case))))
    err = e1 or e2 or ""
    ev = []
    vstamps = [] if err else perm(vol.keys(), days)
    if not err and perm(cov.keys(), days) != (vstamps if h is None else vstamps[1:]):
        err = "days of the covariances"
    for t in days:
        e = {"rows": nmat(R.values[[x == t for x in R.index]])}
        if not err:
            v = vol[t]
            e.update(vl=perm(v.index, R.columns), vola=nums(v.values))
            if t in cov:
                c = cov[t]
                e.update(rl=perm(c.index, R.columns), cl=perm(c.columns, R.columns), cov=nmat(c.values))
        ev.append(e)
    s = np.sqrt((R.values ** 2).sum(0))
    return {"kind": "day", "n": n, "h": "" if h is None else num(h), **clipping(case), "sizes": nums(s), "stamps": vstamps, "err": err, "ev": ev, "case": dict(case)}


RUN = {"ll": run_ll, "dated": run_dated, "mse": run_mse, "roll": run_roll, "smooth": run_smooth, "day": run_day}


def execute(case):
    return RUN[case["kind"]](case)


def rand_case(rng, kind, **kw):
    n = int(rng.integers(1, 6))
    c = {"kind": kind, "seed": int(rng.integers(1 << 31)), "n": n, "T": int(rng.integers(2, 12)), "scale": float(rng.choice([1.0, 0.01, 1e-3, 50.0])),
         "index": ["days", "range", "str", "irregular", "float", "unsorted", "newest", "tz"][rng.integers(8)], "labels": ["str", "unsorted", "int", "range"][rng.integers(4)],
         "means": bool(rng.integers(2)), "order": ["sorted", "sorted", "random"][rng.integers(3)], "r": int(rng.integers(1, n + 1))}
    if kind == "ll":
        c["c"] = float(rng.choice([1, 100, 0.01, 252 ** 0.5]))
    elif kind == "roll":
        c.update(T=int(rng.integers(1, 40)), memory=int(rng.choice([1, 2, 3, 5, 10, 25, 60])), mp=[None, 0, 1, 2, 5, 12][rng.integers(6)], jump=bool(rng.random() < 0.3), int=bool(rng.random() < 0.15))
    elif kind == "smooth":
        c.update(T=int(rng.integers(1, 25)), h=float(rng.choice([0.7, 1, 3, 10, 63])))
    elif kind == "day":
        c.update(T=int(rng.integers(1, 8)), ragged=bool(rng.random() < 0.6), per=int(rng.integers(2, 6)), h=[None, 1.0, 5.0][rng.integers(3)], interleave=bool(rng.random() < 0.2), quiet=bool(rng.random() < 0.2))
    if kind in ("smooth", "day") and rng.random() < 0.5:
        c.update(wait=int(rng.integers(1, 6)), clip=[None, 0.8, 1.5, 4.0, 9.0][rng.integers(5)], jump=bool(rng.integers(2)), late=int(rng.integers(0, 8)) if rng.random() < 0.3 else 0)
    c.update(kw)
    return c
