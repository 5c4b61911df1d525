"""Family 5: traders and backtests of the experiments against Trader.tla / Portfolio.tla (C22-C25)."""
from __future__ import annotations

import contextlib
import copy
import io
import json
import multiprocessing
import multiprocessing.pool
import os

import numpy as np
import pandas as pd

from f_combine import spd, wishart
from f_ewma import index, labels
from vlib import guarded, nmat, num, nums, perm

os.environ.setdefault("MPLBACKEND", "Agg")
REALPOOL = multiprocessing.Pool
PLAIN = ["eq_weighted", "min_risk", "risk_parity", "max_diverse", "max_sharpe", "robust_min_risk"]
CASH = ["vol_cont", "mean_variance"]


def modules():
    """the experiments, with the solver that is installed instead of ECOS and one worker thread instead of a pool of processes"""
    import cvxpy
    if not getattr(cvxpy, "_ecos_mapped", False):
        orig = cvxpy.Problem.solve

        def solve(self, *a, **kw):
            if kw.get("solver") == "ECOS" and "ECOS" not in cvxpy.installed_solvers():
                kw["solver"] = "CLARABEL"
            return orig(self, *a, **kw)
        cvxpy.Problem.solve = solve
        cvxpy._ecos_mapped = True
    multiprocessing.Pool = lambda *a, **kw: multiprocessing.pool.ThreadPool(1)
    import experiments.utils.portfolio_backtests as pb
    import experiments.utils.trading_model as tm
    return tm, pb


# ------------------------------------------------------------------ multipliers (untrusted; the specification evaluates the bound)

def multipliers(alpha, p, beta, lim, c1, pos1):
    """maximise the piecewise linear bound  c1 y1 - s y2 + sum_i min_x [(alpha_i + p_i y1) x + (beta_i + y2) |x|]
    over y1 (>= 0 when pos1) and y2 >= 0 (0 without a limit s) by trying every corner"""
    n = len(alpha)
    lo = -10.0 if lim["lo"] is None else lim["lo"]
    hi = 10.0 if lim["hi"] is None else lim["hi"]
    xs = [lo, hi] + ([0.0] if lo <= 0 <= hi else [])
    s = lim["s"]
    # coefficients (const, y1, y2) of every candidate of every asset
    C = np.array([[[alpha[i] * x + beta[i] * abs(x), p[i] * x, abs(x)] for x in xs] for i in range(n)])
    lines = [C[i, a] - C[i, b] for i in range(n) for a in range(len(xs)) for b in range(a)]
    if pos1:
        lines.append(np.array([0.0, 1.0, 0.0]))
    L = np.array(lines)
    if s is None:
        L = L[np.abs(L[:, 1]) > 1e-14]
        Y = np.stack([-L[:, 0] / L[:, 1], np.zeros(len(L))], 1)
    else:
        L = np.vstack([L, [0.0, 0.0, 1.0]])
        i, j = np.triu_indices(len(L), 1)
        det = L[i, 1] * L[j, 2] - L[i, 2] * L[j, 1]
        ok = np.abs(det) > 1e-14
        i, j, det = i[ok], j[ok], det[ok]
        Y = np.stack([(-L[i, 0] * L[j, 2] + L[i, 2] * L[j, 0]) / det, (-L[i, 1] * L[j, 0] + L[i, 0] * L[j, 1]) / det], 1)
    Y = Y[(Y[:, 1] >= -1e-12) & ((Y[:, 0] >= -1e-12) | (not pos1))]
    if not len(Y):
        return 0.0, 0.0
    Y = np.maximum(Y, [0.0 if pos1 else -np.inf, 0.0])
    V = c1 * Y[:, 0] - (0 if s is None else s) * Y[:, 1] + (C[None, :, :, 0] + C[None, :, :, 1] * Y[:, 0, None, None] + C[None, :, :, 2] * Y[:, 1, None, None]).min(2).sum(1)
    return tuple(Y[np.argmax(V)])


def lp(g, b, lim, full=False, cap=None):
    """multipliers of min g.v + b.|v| within the limits; cap = (h, R): h.v <= R"""
    if cap is None:
        nu, la = multipliers(g, -np.ones(len(g)), b, lim, 1.0, False)
        return {"nu": num(nu), "la": num(la), "mu": "0"}
    mu, la = multipliers(g, cap[0], b, lim, -cap[1], True)
    return {"nu": "0", "la": num(la), "mu": num(mu)}


def lower(g, b, lim, full, wit):
    lo = -10.0 if lim["lo"] is None else lim["lo"]
    hi = 10.0 if lim["hi"] is None else lim["hi"]
    nu, la = (float(wit["nu"]) if full else 0.0), (float(wit["la"]) if lim["s"] is not None else 0.0)
    xs = [lo, hi] + ([0.0] if lo <= 0 <= hi else [])
    return nu - la * (lim["s"] or 0) + sum(min((gi - nu) * x + (bi + la) * abs(x) for x in xs) for gi, bi in zip(g, b))


def polish(z, kind, S, a, rho, kappa, lim, R, c):
    """Newton steps from z on the optimality conditions, keeping what looks active at z (untrusted as well)"""
    n = len(S)
    sd, sg = np.sqrt(np.diag(S)), np.sign(z)
    scale = max(abs(z).max(), 1e-12)
    near = lambda x: np.zeros(n, bool) if x is None else abs(z - x) < 1e-4 * scale  # noqa: E731
    sums = kind != "mv"
    short = lim["s"] is not None and abs(z).sum() > lim["s"] - 1e-4 and kind != "ratio"
    kink = short or kappa or (rho is not None and np.any(rho))
    fixed = near(lim["lo"]) | near(lim["hi"]) | (near(0.0) & bool(kink))
    x = z.copy()
    for b in ("lo", "hi"):
        if lim[b] is not None:
            x[near(lim[b])] = lim[b]
    if kink:
        x[near(0.0)] = 0.0
    F = np.flatnonzero(~fixed)
    k = len(F)
    if kind == "ratio" or not k:
        return None
    m = int(sums) + int(short) + int(kind == "mv")
    y = None
    ss = sd * sg
    for _ in range(12):
        if kind == "mv":
            g, H = -(a - rho * sg), np.zeros((n, n))
        else:
            r = np.sqrt(x @ S @ x)
            q = S @ x / r
            g, H = q + 2 * kappa * (ss @ x) * ss, S / r - np.outer(q, q) / r + 2 * kappa * np.outer(ss, ss)
        J, res, C = [], [], []
        if sums:
            J.append(np.ones(n)), res.append(x.sum() - 1), C.append(None)
        if short:
            J.append(sg), res.append(sg @ x - lim["s"]), C.append(None)
        if kind == "mv":
            J.append(S @ x / R), res.append((x @ S @ x / R - R) / 2), C.append(S / R)
        J = np.array(J).reshape(m, n)
        if y is None:
            y = np.linalg.lstsq(J[:, F].T, -g[F], rcond=None)[0]
        HL = H + sum((yi * Ci for yi, Ci in zip(y, C) if Ci is not None), np.zeros((n, n)))
        K = np.block([[HL[np.ix_(F, F)], J[:, F].T], [J[:, F], np.zeros((m, m))]])
        d = np.linalg.lstsq(K, -np.concatenate([(g + J.T @ y)[F], res]), rcond=None)[0]
        x[F] += d[:k]
        y = y + d[k:]
        if not np.isfinite(x).all() or abs(x).max() > 1e3:
            return None
    return x


def refine(kind, S, a, rho, kappa, lim, R, c):
    """very accurate optima (untrusted as well)"""
    import cvxpy as cp
    n = len(S)
    v = cp.Variable(n)
    W = np.linalg.cholesky(S).T
    sd = np.sqrt(np.diag(S))
    cons = []
    if kind != "ratio":
        if lim["s"] is not None:
            cons.append(cp.norm1(v) <= lim["s"])
        cons += [v <= (10 if lim["hi"] is None else lim["hi"]), v >= (-10 if lim["lo"] is None else lim["lo"])]
    if kind == "risk":
        obj = cp.Minimize(cp.norm2((W / c) @ v) + (kappa * c * cp.square((sd / c) @ cp.abs(v)) if kappa else 0))
        cons.append(cp.sum(v) == 1)
    elif kind == "mv":
        u = max(abs(a).max(), 1e-12)
        obj = cp.Maximize((a / u) @ v - (rho / u) @ cp.abs(v))
        cons.append(cp.norm2((W / R) @ v) <= 1)
    else:
        obj = cp.Minimize(cp.norm2((W / c) @ v))
        cons += [(a / c) @ v == 1, v >= 0, v <= (1.0 if lim["hi"] is None else lim["hi"]) * cp.sum(v)]
    forms = [obj]
    if kind == "risk":
        # the same optimum, other formulations: square of the risk (no kappa), scaled objective
        forms += [cp.Minimize(cp.sum_squares((W / c) @ v))] if not kappa else [cp.Minimize(10 * obj.args[0]), cp.Minimize(0.01 * obj.args[0])]
    elif kind == "ratio":
        forms += [cp.Minimize(cp.sum_squares((W / c) @ v))]
    for tol in (1e-13, 1e-11, 1e-9, 1e-8):
        for o in forms:
            try:
                cp.Problem(o, cons).solve(solver="CLARABEL", tol_gap_abs=tol, tol_gap_rel=tol, tol_feas=tol, max_iter=200)
                z = np.asarray(v.value, dtype=float)
            except Exception:
                continue
            if z.shape == (n,) and np.isfinite(z).all():
                yield z
                try:
                    p = polish(z, kind, S, a, rho, kappa, lim, R, c)
                except Exception:
                    continue
                if p is not None:
                    yield p


NOWIT = {"nu": "0", "la": "0", "mu": "0", "z": []}


def witness(ty, S, mu, rho, w, lim, kappa, R):
    """multipliers, and a better point to put the tangents when that of w itself is not sharp enough"""
    n = len(S)
    v = w[:n]
    if ty in ("eq_weighted", "risk_parity") or not np.isfinite(w).all():
        return dict(NOWIT)
    if ty == "vol_cont":
        v = v / v.sum()
    risk = lambda x: np.sqrt(max(x @ S @ x, 1e-300))  # noqa: E731
    slope = lambda x: S @ x / risk(x)  # noqa: E731
    sd = np.sqrt(np.diag(S))
    zero = 0 * sd
    if ty in ("min_risk", "vol_cont", "robust_min_risk"):
        k = kappa if ty == "robust_min_risk" else 0.0

        def at(z):
            b = 2 * k * (sd @ abs(z)) * sd
            m = lp(slope(z), b, lim, full=True)
            f = risk(v) + k * (sd @ abs(v)) ** 2
            return m, (f - lower(slope(z), b, lim, True, m) + k * (sd @ abs(z)) ** 2) / f
        args = ("risk", S, None, None, k, lim, R, risk(v))
    elif ty == "mean_variance":
        def at(z):
            g = slope(z) if risk(z) > 1e-9 * R else zero
            m = lp(-mu, rho, lim, cap=(g, R))
            x = float(m["mu"])
            return m, (x * R - lower(x * g - mu, rho, lim, False, m) - mu @ v + rho @ abs(v)) / (abs(mu).max() * (abs(v).sum() + 0.01) + x * R)
        args = ("mv", S, mu, rho, 0, lim, R, 1)
    else:
        a = sd if ty == "max_diverse" else mu
        box = {"lo": 0.0, "hi": lim["hi"] if ty == "max_diverse" else 1.0, "s": None}

        def at(z):
            c = (a @ v) / risk(v) * slope(z) - a
            m = lp(c, zero, box, full=True)
            return m, -lower(c, zero, box, True, m) / abs(a @ v)
        args = ("ratio", S, a, None, 0, box, R, risk(v))
    m, gap = at(v)
    if gap > 2e-5:
        best = []
        for z in refine(*args):
            m2, gap2 = at(z)
            if gap2 < gap:
                m, gap, best = m2, gap2, nums(z)
            if gap < 2e-5:
                break
        return {**m, "z": best}
    return {**m, "z": []}


# ------------------------------------------------------------------ data

def dataset(case, who):
    """history of returns, predictions per time (with gaps outside the period), means, uncertainties"""
    rng = np.random.default_rng([case["seed"], who])
    n, H = case["n"], case["H"]
    ix = index(case["index"], H)
    cols = labels(case["labels"], n, rng)
    base = spd(rng, n, case.get("strength", 0.6), case["scale"])
    X = (np.linalg.cholesky(base) @ rng.normal(size=(n, H))).T
    S = {}
    for t in ix:
        a = wishart(rng, base, n + 2 + int(rng.integers(0, 8)))
        S[t] = pd.DataFrame((a + a.T) / 2 * (case["regimes"][len(S) % len(case["regimes"])] if case.get("regimes") else 1), index=cols, columns=cols)
    mu = pd.DataFrame(np.abs(rng.normal(size=(H, n))) * 0.1 * case["scale"] if case.get("posmu", True) else rng.normal(size=(H, n)) * 0.1 * case["scale"], index=ix, columns=cols)
    rho = pd.DataFrame(rng.random((H, n)) * 0.05 * case["scale"], index=ix, columns=cols)
    rf = pd.Series(rng.random(H) * 0.01 * case["scale"], index=ix)
    R = pd.DataFrame(X, index=ix, columns=cols)
    for q in case.get("gaps", ()):
        R.iloc[q % H, 0] = np.nan
    return R, S, mu, rho, rf


def limits(case, n, rng):
    """limits that some portfolio satisfies"""
    k = rng.integers(5)
    hi = [None, max(0.15, 1.6 / n), 0.9, max(0.3, 1.2 / n), 1.0 / n + 0.05][k]
    lo = [None, -0.1, -0.4, 0.0, None][rng.integers(5)]
    s = [None, 1.6, 1.1, 2.5, 1.0 + 1e-3][rng.integers(5)]
    return {"lo": lo, "hi": hi, "s": s}


def cons_of(lim):
    d = {}
    if lim["s"] is not None:
        d["short_lim"] = lim["s"]
    if lim["hi"] is not None:
        d["upper_bound"] = lim["hi"]
    if lim["lo"] is not None:
        d["lower_bound"] = lim["lo"]
    return d


def lim_json(lim):
    return {k: ("" if v is None else num(v)) for k, v in lim.items()}


BLANK = {"who": 1, "err": "", "kept": True, "feasible": True, "type": "", "adj": "1", "lim": {"lo": "", "hi": "", "s": ""}, "sdes": "", "kappa": "0", "userho": False, "ws": [], "wit": [],
         "x": "", "diluted": False, "excess": False, "rf": [], "rets": [], "V": [], "fig": {}, "idx": [], "sidx": [], "r": [], "S": [], "mu": []}


def event(op, **kw):
    return {**copy.deepcopy(BLANK), "op": op, **kw}


def num2(a, T):
    a = np.asarray(a, dtype=float)
    return nmat(a.reshape(T, -1))


def quiet(fn):
    with contextlib.redirect_stderr(io.StringIO()):
        return guarded(fn)


def do_backtest(case, who, tr, op, d, log, adj=1.0):
    """run one backtest of trader tr and record it; d: its paired data (lists of arrays)"""
    rng = np.random.default_rng([case["seed"], 77, len(log)])
    ty = op["type"]
    n, T = len(d["S"][0]), len(d["S"])
    lim = op.get("lim") or limits(case, n, rng)
    feasible = not op.get("infeasible")
    if not feasible:
        lim = {"lo": None, "hi": 0.5 / n, "s": None}
    if ty in ("max_diverse", "max_sharpe") and lim["hi"] is None:
        lim = {**lim, "hi": 0.95}
    if ty in ("max_diverse",) and feasible:
        lim = {**lim, "hi": max(lim["hi"], 1.02 / n)}
    sdes, kappa, userho = op.get("sdes", 0.1), op.get("kappa", 0.5), bool(op.get("rho"))
    kw = {"portfolio_type": ty, "additonal_cons": cons_of(lim)}
    if op.get("default_limits") and feasible and n >= 8:
        kw.pop("additonal_cons")
        lim = {"lo": -0.1, "hi": 0.15, "s": 1.6}
    if adj != 1:
        kw["adjust_factor"] = adj
    if ty in CASH:
        kw["sigma_des"] = sdes
    if ty == "robust_min_risk":
        kw["kappa"] = kappa
    if ty == "mean_variance" and userho:
        kw["rhos"] = d["rho_frame"]
    own = []
    if op.get("cons"):
        import cvxpy
        z = cvxpy.Variable()
        own = [z >= 1, z <= 3]
        kw["cons"] = own
    before = (list(own), dict(kw.get("additonal_cons", {})))
    _, err = quiet(lambda: tr.backtest(**kw))
    e = event("backtest", who=who, type=ty, adj=num(adj), lim=lim_json(lim), sdes=num(sdes), kappa=num(kappa), userho=userho and ty == "mean_variance",
              feasible=feasible, err=err or "", kept=before == (list(own), dict(kw.get("additonal_cons", {}))))
    if err is None:
        put_ws(e, tr.ws, d, lim, ty, kappa, sdes * adj / np.sqrt(252))
    log.append(e)
    return err is None and feasible


def put_ws(e, ws, d, lim, ty, kappa, R):
    T = len(d["S"])
    try:
        w = np.array(ws, dtype=float).reshape(T, -1)
    except Exception:
        return
    e["ws"] = nmat(w)
    if e["feasible"] and w.shape[1] >= len(d["S"][0]):
        for t in range(T):
            e["wit"].append(witness(ty, d["S"][t], d["mu"][t], d["rho"][t] if e["userho"] else 0 * d["mu"][t], w[t], lim, kappa, R))


def do_report(case, who, tr, op, d, log, adj=1.0):
    rng = np.random.default_rng([case["seed"], 78, len(log)])
    T = len(d["S"])
    x = op.get("x")
    if op["op"] == "dilute":
        _, err = quiet(lambda: tr.dilute_with_cash(x) if x is not None else tr.dilute_with_cash())
        e = event("dilute", who=who, x=num(0.1 if x is None else x), err=err or "")
        if err is None:
            e["ws"] = num2(tr.ws_diluted, T)
    elif op["op"] == "riskadj":
        _, err = quiet(lambda: tr.get_risk_adj_portfolio_growth(x))
        e = event("riskadj", who=who, x=num(x), err=err or "")
        if err is None:
            e.update(rets=nums(np.ravel(tr.rets_adjusted)), V=nums(np.ravel(tr.Vs_adjusted)))
    elif op.get("metrics"):
        rf = d["rf"] if op.get("rf") and (adj == 1 or case.get("plain")) else None
        kw = {"diluted_with_cash": op["dil"]}
        if x is not None:
            kw["sigma_des"] = x
        if rf is not None:
            kw["rf"] = rf
            if op.get("excess"):
                kw["excess"] = True
        m, err = quiet(lambda: tr.get_metrics(**kw))
        e = event("metrics", who=who, diluted=op["dil"], x=num(0.1 if x is None else x), err=err or "", excess=bool(kw.get("excess")), rf=[] if rf is None else nums(rf.values))
        if err is None:
            e.update(rets=nums(np.ravel(tr.rets)), V=nums(np.ravel(tr.Vs)),
                     fig={"mean": num(m.mean_return), "risk": num(m.risk), "sharpe": num(m.sharpe), "dd": num(m.drawdown)})
    else:
        rf = d["rf"] if op.get("rf") and (adj == 1 or case.get("plain")) else None
        kw = {"diluted_with_cash": op["dil"]}
        if x is not None:
            kw["sigma_des"] = x
        if rf is not None:
            kw["rf"] = rf
        grow = bool(rng.integers(2))

        def go():
            tr.get_total_returns(**kw)
            if grow:
                tr.get_portfolio_growth()
        _, err = quiet(go)
        e = event("returns", who=who, diluted=op["dil"], x="" if x is None else num(x), err=err or "", rf=[] if rf is None else nums(rf.values))
        if err is None:
            e.update(rets=nums(np.ravel(tr.rets)), V=nums(np.ravel(tr.Vs)) if grow else [])
    log.append(e)


def paired(R, S, mu, rho, rf, times, nxt, ix):
    """values of the traded times (for the multipliers and the arguments only)"""
    keys = [ix[p] for p in times]
    return {"S": [S[t].values for t in keys], "mu": mu.loc[keys].values, "rho": rho.loc[keys].values, "rho_frame": rho, "rf": rf.loc[keys]}


def run_direct(case):
    tm, _ = modules()
    D, P, traders = [], [], []
    log = []
    for who in range(case["traders"]):
        R, S, mu, rho, rf = dataset({**case, "gaps": ()}, who)
        D.append({"direct": True, "R": nmat(R.values), "S": [nmat(S[t].values) for t in R.index], "mu": nmat(mu.values), "rho": nmat(rho.values), "start": 1, "end": len(R)})
        P.append(paired(R, S, mu, rho, rf, range(len(R)), None, R.index))
        kw = {"rhos": rho} if case.get("ctor_rho") else {}
        tr, err = quiet(lambda: tm.Trader(R.copy(), dict(S), r_hats=mu.copy(), **kw))
        traders.append(tr)
        e = event("paired", who=who + 1, err=err or "")
        if err is None:
            e.update(idx=list(range(1, len(R) + 1)), sidx=list(range(1, len(R) + 1)), r=nmat(R.values), S=[nmat(S[t].values) for t in R.index], mu=nmat(mu.values))
        log.append(e)
    alive, adjs = {}, {}
    for op in case["ops"]:
        w = op.get("who", 1) - 1
        tr = traders[w]
        if tr is None:
            continue
        if op["op"] == "backtest":
            adj = op.get("adj", 1.0)
            alive[w] = do_backtest(case, w + 1, tr, op, P[w], log, adj)
            adjs[w] = adj
        elif alive.get(w):
            do_report(case, w + 1, tr, op, P[w], log, adjs[w])
    return {"D": D, "ev": log, "gtol": "3E-4", "case": {k: v for k, v in case.items()}}


CLASSES = {"eq_weighted": "EqWeighted", "min_risk": "MinRisk", "max_diverse": "MaxDiverse", "risk_parity": "RiskParity", "mean_variance": "MeanVariance"}


def run_class(case):
    """a backtest class over a period of a history"""
    _, pb = modules()
    ty, K = case["type"], case["K"]
    R, _, _, rho, rf = dataset(case, 0)
    ix = list(R.index)
    H = len(ix)
    a, b = case["first"], case["last"]                # the predictors cover positions a..b (from 1)
    preds, mus, spans = [], [], []
    for k in range(K):
        _, S, mu, _, _ = dataset({**case, "gaps": ()}, k + 1)
        # same columns as the returns
        S = {t: pd.DataFrame(v.values, index=R.columns, columns=R.columns) for t, v in S.items()}
        mu.columns = R.columns
        more = case.get("spans")                      # predictors that start earlier or end later than the common period
        a1, b1 = (max(1, a - more[k][0]), min(H, b + more[k][1])) if more else (a, b)
        spans.append((a1, b1))
        keys = [ix[p - 1] for p in range(a1, b1 + 1)]
        preds.append({t: S[t] for t in keys})
        o = case.get("muorder")                       # the dates of the means: all in another order, or only those of the predictor
        if o == "shuffled":
            mu = mu.iloc[np.random.default_rng([case["seed"], 6, k]).permutation(H)]
        elif o == "reversed":
            mu = mu.iloc[::-1]
        elif o == "covered" and k == K - 1:
            mu = mu.loc[keys]
        mus.append(mu)
    rho.columns = R.columns
    start, end = case.get("start"), case.get("end")
    kw = {}
    if start:
        kw["start_date"] = ix[start - 1]
    if end:
        kw["end_date"] = ix[end - 1]
    n = R.shape[1]
    rng = np.random.default_rng([case["seed"], 5])
    lim = limits(case, n, rng)
    if ty == "max_diverse":
        lim = {**lim, "hi": max(lim["hi"] or 0.95, 1.02 / n)}
    sdes = case.get("sdes", 0.1)
    names = [f"p{k}" for k in range(K)]

    def go():
        cls = getattr(pb, CLASSES[ty])
        if ty == "mean_variance":
            bt = cls(R.copy(), preds, names, mus, **kw)
        else:
            bt = cls(R.copy(), preds, names, **kw)
        args = {}
        if ty in ("min_risk", "max_diverse", "mean_variance"):
            args["additonal_cons"] = cons_of(lim)
        if ty == "mean_variance":
            args["sigma_tar"] = sdes
            if case.get("userho"):
                args["rhos"] = rho
        out = bt.backtest(**args)
        if case.get("twice"):
            out = bt.backtest(**args)
        return out
    traders, err = quiet(go)
    D, log = [], []
    s0, e0 = start or max(x for x, _ in spans), end or min(y for _, y in spans)      # by default what all predictors cover
    full = ~np.isnan(R.values).any(axis=1)
    times = [p for p in range(s0, e0) if full[p]]      # position p (from 1): next row is R.values[p]
    for k in range(K):
        D.append({"direct": False, "R": nmat(R.values), "S": [nmat(preds[k][t].values) if t in preds[k] else [] for t in ix], "mu": nmat(mus[k].reindex(R.index).values), "rho": nmat(rho.values),
                  "start": s0, "end": e0})
        tr = None if err else traders.get(names[k])
        log.append(event("paired", who=k + 1, err=(err or "") if tr is not None or err else "no trader"))
        if tr is None:
            continue
        e = log[-1]
        e.update(idx=perm(tr.returns.index, ix), sidx=perm(tr.Sigma_hats.keys(), ix), r=nmat(tr.returns.values), S=[nmat(v.values) for v in tr.Sigma_hats.values()],
                 mu=nmat(tr.r_hats.values) if tr.r_hats is not None else [])
        keys = [ix[p - 1] for p in times]
        d = {"S": [preds[k][t].values for t in keys], "mu": mus[k].loc[keys].values, "rho": rho.loc[keys].values, "rho_frame": rho, "rf": rf.loc[keys]}
        e = event("backtest", who=k + 1, type=ty, lim=lim_json(lim), sdes=num(sdes), userho=bool(case.get("userho")) and ty == "mean_variance")
        if len(times) == len(tr.ws):
            put_ws(e, tr.ws, d, lim, ty, 0.5, sdes / np.sqrt(252))
        log.append(e)
        if len(times) == len(tr.returns):
            for op in case.get("reports", ()):
                do_report(case, k + 1, tr, op, d, log)
    return {"D": D, "ev": log, "gtol": "3E-4", "case": dict(case)}


def execute(case):
    return run_class(case) if case["run"] == "class" else run_direct(case)


# ------------------------------------------------------------------ scenarios

def mc_histories(res):
    import re
    out = []
    for p in res.tagged("BEH"):
        m = re.match(r'<<"BEH", "(.*)">>$', p)
        out.append(json.loads(m.group(1).replace('\\"', '"')))
    return out


def from_history(h, rng, cheap=False):
    """names of the model's portfolios and targets -> real ones"""
    plain = [PLAIN[i] for i in rng.permutation(len(PLAIN))]
    if cheap:
        plain = ["eq_weighted"] + [p for p in plain if p != "eq_weighted"]
    ty = {"eq": plain[0], "other": plain[1], "vol_cont": CASH[rng.integers(2)]}
    xs = {"1": float(rng.choice([0.05, 0.1, 0.3])), "2": float(rng.choice([0.02, 0.15, 0.5]))}
    ops = []
    for o in h:
        if o["op"] == "backtest":
            ops.append({"op": "backtest", "type": ty[o["type"]], "sdes": float(rng.choice([0.05, 0.1, 0.2])), "kappa": float(rng.choice([0.0, 0.5, 20.0])), "rho": bool(rng.integers(2))})
        elif o["op"] == "dilute":
            ops.append({"op": "dilute", "x": xs[o["x"]]})
        else:
            m = bool(rng.integers(2)) and not (o["dil"] and o["x"] == "0")
            ops.append({"op": "report", "dil": o["dil"], "x": xs.get(o["x"]), "metrics": m, "rf": bool(rng.integers(2)), "excess": bool(rng.integers(2))})
    return ops


def rand_ops(rng, traders, length, types=PLAIN + CASH):
    ops = [{"op": "backtest", "type": types[rng.integers(len(types))], "who": w + 1} for w in range(traders)]
    for _ in range(length):
        w = int(rng.integers(traders)) + 1
        k = rng.random()
        if k < 0.35:
            ops.append({"op": "backtest", "type": types[rng.integers(len(types))], "who": w, "infeasible": bool(rng.random() < 0.15), "cons": bool(rng.random() < 0.3),
                        "sdes": float(rng.choice([0.05, 0.1, 0.2])), "kappa": float(rng.choice([0.0, 0.5, 20.0])), "rho": bool(rng.integers(2)), "default_limits": bool(rng.integers(2))})
        elif k < 0.5:
            ops.append({"op": "dilute", "who": w, "x": [None, 0.05, 0.2][rng.integers(3)]})
        elif k < 0.58:
            ops.append({"op": "riskadj", "who": w, "x": float(rng.choice([0.1, 0.3]))})
        else:
            ops.append({"op": "report", "who": w, "dil": bool(rng.integers(2)), "x": [None, 0.05, 0.1, 0.25][rng.integers(4)], "metrics": bool(rng.integers(2)),
                        "rf": bool(rng.integers(2)), "excess": bool(rng.integers(2))})
    return ops


def rand_data(rng, **kw):
    c = {"run": "direct", "seed": int(rng.integers(1 << 31)), "n": int(rng.integers(2, 6)), "H": int(rng.integers(2, 5)), "index": ["days", "range", "str", "irregular", "unsorted", "newest", "tz"][rng.integers(7)],
         "labels": ["str", "unsorted", "int", "tuple"][rng.integers(4)], "scale": float(rng.choice([0.01, 0.02])), "traders": 1, "posmu": True}
    c.update(kw)
    return c


def rand_class(rng, ty, **kw):
    H = int(rng.integers(6, 12))
    a = int(rng.integers(1, 4))
    b = int(rng.integers(a + 3, H + 1)) if a + 3 < H + 1 else H
    c = rand_data(rng, run="class", type=ty, K=int(rng.integers(1, 4)), H=H, first=a, last=b, n=int(rng.integers(2, 5)), userho=bool(rng.integers(2)), twice=bool(rng.random() < 0.2))
    if rng.random() < 0.6:
        c["start"] = int(rng.integers(a, b - 1))
    if rng.random() < 0.6:
        c["end"] = int(rng.integers((c.get("start") or a) + 2, b + 1))
    if ("start" in c or "end" in c) and c["seed"] % 7 == 0:     # a date that is zero
        c["index"] = f"around{c['end'] if 'end' in c else c['start']}"
    if c["K"] > 1 and rng.random() < 0.5:
        c["spans"] = [[int(x) for x in rng.integers(0, 3, size=2)] for _ in range(c["K"])]
    if rng.random() < 0.2:
        c["gaps"] = [int(rng.integers(0, H))]
    if ty == "mean_variance":
        c["posmu"] = bool(rng.integers(2))
        c["sdes"] = float(rng.choice([0.05, 0.1, 0.3]))
    if ty == "mean_variance" and rng.random() < 0.6:
        c["muorder"] = ["shuffled", "reversed", "covered"][rng.integers(3)]
    if rng.random() < 0.12:                  # a single traded date
        a1 = int(rng.integers(a, b))
        c["start"], c["end"] = a1, a1 + 1
        c.pop("gaps", None)
    c["reports"] = [{"op": "report", "dil": False, "x": None, "metrics": bool(rng.integers(2)), "rf": bool(rng.integers(2)), "excess": bool(rng.integers(2))},
                    {"op": "report", "dil": True, "x": 0.1, "metrics": True, "rf": bool(rng.integers(2))}]
    c.update(kw)
    return c
