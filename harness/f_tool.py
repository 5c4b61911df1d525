"""Family 12: the experiment tools end to end, from returns to what they put out, against Pipeline (C37) and Iterators (C38)."""
from __future__ import annotations

import contextlib
import io

import numpy as np
import pandas as pd

import f_combine as fc
import f_relate as fr
import f_trader
from f_ewma import index, labels
from vlib import guarded, num, nums, perm

KW = dict(min_periods_vola=3, min_periods_cov=5)


class Pack(dict):
    """what a tool is given"""
    __getattr__ = dict.__getitem__


def frame(case, rng):
    n, T, k = case["n"], case["T"], case.get("intraday", 1)
    A = rng.normal(size=(n, n)) * 0.4 + np.eye(n)
    X = rng.normal(size=(T * k, n)) @ A.T * case["scale"] * (1 + rng.random((T * k, 1)))
    X += case["scale"] * 0.2
    if case.get("spike"):
        X[rng.random(T * k) < 0.06] *= 8
    ix = index(case["index"], T)
    return pd.DataFrame(X, index=ix if k == 1 else ix.repeat(k), columns=labels(case["labels"], n, rng))


def sigmas(R, h=(3, 6), **kw):
    from cvx.covariance.ewma import iterated_ewma
    return {x.time: x.covariance for x in iterated_ewma(R, *h, **{**KW, "min_periods_cov": R.shape[1] + 3, **kw})}


def lagged(R, hs=(2, 5)):
    """predictors of every asset, known before the return"""
    from experiments.utils.return_combination import ewma_predictors
    return [ewma_predictors(R.iloc[:, i], list(hs)) for i in range(R.shape[1])]


def items(d):
    return iter(list(d.items()))


# every tool: (prepare the inputs from the returns, run on the inputs -> iterator of (time, objects))

def t_rolling(case):
    import experiments.utils.experiment_utils as xu
    return (lambda R: Pack(R=R)), lambda p: items(xu.rolling_window(p.R, case["memory"], case["mp"]))


def t_realized(case):
    import experiments.utils.experiment_utils as xu
    kw = {"clip_at": case["clip"], "min_periods": 2} if case["clip"] else {}
    return (lambda R: Pack(R=R)), lambda p: iter(xu.realized_ewma(p.R, case["h"], **kw)) if case["flag"] else iter(xu.realized_volas(p.R))


def t_vec(case):
    from experiments.utils.iterated_ewma_vec import iterated_ewma
    def run(p):
        x = iterated_ewma(p.R, case["h"], case["h2"], mean=case["flag"], clip_at=case["clip"], low_rank=case["rank"] if case["low"] else None, **KW)
        return items(x) if not case["flag"] else iter([(t, (x.mean[t], c)) for t, c in x.covariance.items()])
    return (lambda R: Pack(R=R)), run


def t_low(case):
    from experiments.utils.low_rank_ewma import low_rank_iterated_ewma
    return (lambda R: Pack(R=R)), lambda p: ((x.time, (x.covariance, x.mean, x.volatility)) for x in
                                             low_rank_iterated_ewma(p.R, case["h"], case["h2"], rank=case["rank"], mean=case["flag"], clip_at=case["clip"], **KW))


def t_regularize(case):
    from cvx.covariance.regularization import regularize_covariance
    return (lambda R: Pack(S=sigmas(R))), lambda p: iter(regularize_covariance(p.S, case["rank"], low_rank_format=case["flag"]))


def t_em(case):
    from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance
    def prep(R):
        S = sigmas(R)
        low = dict(regularize_covariance(S, case["rank"], low_rank_format=True))
        return Pack(S=S, low={t: type(m)(F=m.F, d=m.d + 1e-3 * np.diag(S[t]).mean()) for t, m in low.items()})
    return prep, lambda p: iter(em_regularize_covariance(p.S, p.low))


def t_smooth(case):
    from experiments.utils.iterated_ewma_vec import ewma
    return (lambda R: Pack(S=sigmas(R))), lambda p: iter(ewma(p.S, case["h"]))


def t_ll(case):
    import experiments.utils.experiment_utils as xu
    from cvx.covariance.regularization import regularize_covariance
    kind = case["which"] % 4
    def prep(R):
        S = sigmas(R)
        p = Pack(R=R, S=S, M=R.ewm(halflife=3).mean() if case["flag"] else None)
        p["low"] = dict(regularize_covariance(S, case["rank"], low_rank_format=True))
        p["low"] = {t: type(m)(F=m.F, d=m.d + 1e-2 * np.diag(S[t]).mean()) for t, m in p.low.items()}
        return p
    def run(p):
        if kind == 0:
            return items(xu.MSE(p.R, p.S).dropna())
        if kind == 1:
            return items(xu.log_likelihood_low_rank(p.R, p.low, p.M))
        if kind == 2:
            return items(xu.log_likelihood_regularized(p.R, p.S, p.M, r=case["rank"] if case["low"] else None))
        return items(xu.em_low_rank_log_likelihood(p.R, p.S, case["rank"]))
    return prep, run


def t_comb(case):
    from cvx.covariance.combination import from_ewmas
    return (lambda R: Pack(R=R)), lambda p: ((x.time, (x.weights, x.mean, x.covariance)) for x in
                                             from_ewmas(p.R, [(2, 5), (6, 15)], mean=case["flag"], clip_at=case["clip"], **{**KW, "min_periods_cov": case["n"] + 3}).solve(window=case["window"]))


def t_daily(case):
    from experiments.utils.return_combination import daily_predictors, ewma_predictors
    def run(p):
        x = daily_predictors(p.r, [1, 3, 2]) if case["low"] else ewma_predictors(p.r, [1.0, 5.0, 20.0])
        return iter([(t, x.loc[t].copy()) for t in x.index])
    return (lambda R: Pack(r=R.iloc[:, 0])), run


def t_split(case):
    from experiments.utils.return_combination import feature_engineer
    return (lambda R: Pack(R=R)), lambda p: iter([(t, r.copy()) for t, r in feature_engineer(p.R).iterrows()])


def t_retcomb(case):
    from experiments.utils.return_combination import ReturnCombinator
    def run(p, own=dict):
        hat, ws = kept(own(), "c", ReturnCombinator).fit(p.R, p.P, case["memory"], 0.1 * case["scale"] ** 2)
        return ((t, (hat.loc[t].copy(), [w.loc[t].copy() for w in ws])) for t in list(hat.index))
    return (lambda R: Pack(R=R, P=lagged(R))), run


def t_lasso(case):
    from experiments.utils.return_combination import ReturnCombinatorOld, ewma_return_combination
    def run(p, own=dict):
        if case["flag"]:
            c = kept(own(), "c", ReturnCombinatorOld)
            c.build(case["memory"], 2, 0.3 * case["memory"])
            hat, w = c.fit(p.r, p.P)
        else:
            hat, w = ewma_return_combination(p.r, p.P, 0.3 * case["memory"], case["memory"])
        return ((t, (hat.loc[t], w.loc[t].copy())) for t in list(hat.index))
    return (lambda R: Pack(r=R.iloc[1:, 0], P=lagged(R.iloc[:, :1])[0])), run


def t_rho(case):
    from experiments.utils.trading_model import construct_rho
    return (lambda R: Pack(R=R)), lambda p: iter([(t, r.copy()) for t, r in construct_rho(p.R, *([case["rank"]] if case["low"] else [])).iterrows()])


def t_factor(case):
    import f_factor
    fm = f_factor.module(f_factor.Pca(pd.DataFrame()))
    k = case["rank"]
    def pca(returns, n_components=10):      # a stand-in for the dependency that is not installed
        X = (returns - returns.mean()).values
        E = np.linalg.eigh(X.T @ X)[1][:, ::-1][:, :n_components].T
        E = E * np.sign(E[:, :1])
        ex = pd.DataFrame(E, columns=returns.columns)
        return f_factor.PCA(None, returns @ np.transpose(ex), ex, None, None, None)
    fm.pca = pca
    def run(p):
        ms = list(fm.construct_cmiewma_factor_model(p.R, k, [(2, 4), (5, 9)], update_frequency=case["freq"], memory=case["memory"]))
        if case["score"]:
            return items(fm.factor_log_likelihood(p.R, ms))
        full = fm.from_factor_to_full_covariance(ms)
        return iter([(m.time, (m.factor_covariance, m.diagonal, m.exposure, full[m.time])) for m in ms])
    return (lambda R: Pack(R=R)), run


def t_backtest(case):
    tm, pb = f_trader.modules()
    what = case["which"] % 5
    def prep(R):
        Ss = [sigmas(R, h) for h in ((3, 6), (8, 20))]
        p = Pack(R=R, S=Ss, names=["one", "two"], lim={"short_lim": 1.6, "upper_bound": 0.9, "lower_bound": -0.3}, wide={"upper_bound": 1.5, "lower_bound": -0.6}, start=None, end=None)
        if what == 4:
            p["M"] = [R.ewm(halflife=h).mean() for h in (2, 9)]
            p["rho"] = tm.construct_rho(R) if case["low"] else None
        if case["flag"]:
            p["start"] = list(Ss[0])[2]
        return p
    def run(p, own=dict):
        a = dict(start_date=p.start, end_date=p.end)
        kind = [pb.EqWeighted, pb.MinRisk, pb.MaxDiverse, pb.RiskParity, pb.MeanVariance][what]
        b = kept(own(), "b", lambda: kind(p.R, p.S, p.names, *([p.M] if what == 4 else []), **a))
        lim = p.wide if case.get("wide") else p.lim
        x = b.backtest(*{0: (), 3: (), 4: (lim, 0.2 if case.get("wide") else 0.1, p.get("rho"))}.get(what, (lim,)))
        for tr in x.values():
            tr.get_total_returns(diluted_with_cash=what != 4, sigma_des=0.1 * case["scale"] * 100)
            tr.get_portfolio_growth()
        times = enumerate(list(x["one"].returns.index))       # what was handed out is read as it is when it is asked for
        if not case["score"]:
            return ((t, ([b.ws[q].copy() for b in x.values()], [b.ws_diluted[q].copy() for b in x.values() if what != 4])) for q, t in times)
        return ((t, [np.array([b.rets[q, 0], b.Vs[q, 0]]) for b in x.values()]) for q, t in times)
    return prep, run


def t_ccp(case):
    from experiments.utils.ccp_regularize import _State, _State2
    def prep(R):
        S = sigmas(R)
        return Pack(S=S, F={t: np.linalg.eigh(s.values)[1][:, -case["rank"]:] * np.sqrt(np.linalg.eigvalsh(s.values)[-case["rank"]:]) * 0.7 for t, s in S.items()})
    def run(p):
        for t, s in p.S.items():
            st = (_State if case["flag"] else _State2)(s.values, p.F[t], 0.5 * np.diag(s.values))
            F, d = st.build()
            yield t, (F @ F.T, d, float(st.objective()))
    return prep, run


def t_rows(case):
    import experiments.utils.experiment_utils as xu
    def run(p):
        x = xu.from_row_matrix_to_covariance(p.M, case["n"])
        return iter([(t, (x[q], xu.from_row_to_covariance(p.M[q], case["n"]))) for q, t in enumerate(p.times)])
    def prep(R):
        up = np.triu(np.ones((case["n"],) * 2)).astype(bool)
        S = sigmas(R)
        return Pack(M=np.array([s.values[up] for s in S.values()]), times=list(S))
    return prep, run


TOOLS = {  # their stages are in the specification (Pipeline)
    "rolling": t_rolling, "realized": t_realized, "vec": t_vec, "low": t_low, "regularize": t_regularize, "em": t_em, "smooth": t_smooth, "comb": t_comb, "ll": t_ll, "daily": t_daily,
    "split": t_split, "retcomb": t_retcomb, "lasso": t_lasso, "rho": t_rho, "factor": t_factor, "backtest": t_backtest, "ccp": t_ccp, "rows": t_rows,
}
NAMES = list(TOOLS)


def comparable(x):
    """numbers of what a tool put out; a low-rank model stands for its matrix"""
    if hasattr(x, "F") and hasattr(x, "d"):
        F, d = x.F, x.d
        ix = list(F.index) if isinstance(F, pd.DataFrame) else None
        F = np.asarray(F, dtype=float)
        return pd.DataFrame(F @ F.T + np.diag(np.asarray(d, dtype=float)), index=ix)
    if isinstance(x, (tuple, list)):
        return [comparable(v) for v in x]
    return x


def outputs(case, R, ref_index):
    """-> ({position: (labels, numbers)}, error)"""
    prep, run = TOOLS[case["tool"]](case)
    out = {}

    def go():
        with contextlib.redirect_stderr(io.StringIO()):
            p = prep(R.copy())
            for t, x in run(p):
                q = perm([t], ref_index)[0]
                lab, xs = fr.flat(comparable(x))
                if q in out:
                    raise ValueError(f"time {t} twice")
                out[q] = (lab, xs)
    _, err = guarded(go, limit=150)
    return out, err


def disturbed(R, cut, how, rng):
    if how == "truncate":
        return R.iloc[:cut]
    B = R.copy()
    s = R.values.std()
    k = len(R) - cut
    if how == "one":
        B.iloc[cut, rng.integers(R.shape[1])] += 3 * s
    elif how == "tail":
        B.iloc[cut:] = R.values[cut:] * 2 + rng.normal(size=(k, R.shape[1])) * s
    return B


def run_peek(case):
    f_trader.modules()
    rng = np.random.default_rng(case["seed"])
    R = frame(case, rng)
    k = case.get("intraday", 1)
    times = list(dict.fromkeys(R.index))
    cut = case["cut"]
    B = disturbed(R, cut * k, case["how"], rng)
    a, e1 = outputs(case, R, times)
    b, e2 = outputs(case, B, times)
    ev = []
    for q in range(1, len(times) + 1):
        e = {}
        for key, d in (("a", a), ("b", b)):
            lab, xs = d.get(q, ("", []))
            e["h" + key], e["l" + key], e[key] = q in d, lab, xs
        v = [abs(float(x)) for x in e["a"] if x not in ("nan", "inf", "-inf")]
        e["u"] = num(max(v) if v else 0.0)
        ev.append(e)
    # a history that stops too early for a single result is no violation
    short = case["how"] == "truncate" and e2 is not None and not e1 and not any(e["ha"] and q <= cut - (case["tool"] == "backtest") for q, e in enumerate(ev, 1))
    return {"kind": "peek", "tool": case["tool"] + ("_score" if case["score"] and case["tool"] in ("backtest", "factor") else ""), "cut": cut, "errA": e1 or "", "errB": "" if short else (e2 or ""), "unknown": 0 in a or 0 in b,
            "tol": "1E-5" if case["tool"] in ("backtest", "lasso", "comb", "factor") else "1E-6", "ev": ev, "case": dict(case)}


def kept(store, key, make):
    """the object a user made before, if there is one"""
    if key not in store:
        store[key] = make()
    return store[key]


def streams_of(case):
    """three ways to use the same inputs with one tool"""
    f_trader.modules()
    rng = np.random.default_rng(case["seed"])
    variants = [dict(case, **v) for v in ({}, {"flag": not case["flag"]}, {"low": not case["low"], "rank": max(1, case["rank"] - 1), "which": case["which"]})]
    if case["tool"] in ("ll", "backtest", "realized", "retcomb", "lasso", "ccp", "rows", "factor", "em"):
        variants = [dict(case), dict(case), dict(case, rank=max(1, case["rank"] - 1))]
        if case["tool"] == "ll":
            variants = [dict(case, which=w) for w in (case["which"], case["which"] + 1, case["which"] + 2)]
        if case["tool"] in ("backtest", "retcomb", "lasso"):
            variants[1] = dict(case, wide=True, memory=case["memory"] + 1)
    tools = [TOOLS[v["tool"]](v) for v in variants]
    R = frame(case, rng)
    inputs = tools[0][0](R)
    if case["tool"] not in ("backtest", "retcomb", "lasso"):
        return (R, dict(inputs)), lambda: [lambda run=run: run(inputs) for _, run in tools]

    def make():
        store = {}      # one object for all three uses
        return [lambda run=run: run(inputs, lambda: store) for _, run in tools]
    return (R, dict(inputs)), make


def item(x):
    t, o = x
    lab, xs = fr.flat(comparable(o))
    return {"k": "item", "o": {"t": repr(t), "lab": lab, "x": xs}}


def run_pure(case):
    f_trader.modules()
    return fr.run_iter(dict(case, what=case["tool"]), streams=streams_of, item=item, tol="1E-5" if case["tool"] in ("backtest", "lasso", "comb", "factor") else "1E-6")


def first(case):
    """about where the first result is"""
    n = case["n"]
    return {"comb": n + 6 + case["window"], "factor": case["memory"] + 1, "retcomb": case["memory"] + 6, "lasso": case["memory"] + 3, "daily": 3, "rho": 3, "split": 1, "rolling": case["memory"], "backtest": n + 8}.get(case["tool"], n + 4)


def execute(case):
    return {"peek": run_peek, "pure": run_pure}[case["run"]](case)


def rand_case(rng, tool, run, **kw):
    n = int(rng.integers(2, 5))
    clip = [None, 2.5][rng.integers(2)]
    c = {"tool": tool, "run": run, "seed": int(rng.integers(1 << 31)), "n": n, "T": int(rng.integers(12, 22)), "scale": float(rng.choice([1.0, 0.01])), "index": ["days", "range", "str", "irregular", "tz"][rng.integers(5)],
         "labels": ["str", "unsorted", "int", "range"][rng.integers(4)], "spike": bool(rng.random() < 0.3), "h": float(rng.choice([1, 3, 8, 30])), "h2": float(rng.choice([2, 6, 25])),
         "rank": int(rng.integers(1, n)), "memory": int(rng.integers(2, 7)), "mp": int(rng.integers(1, 4)), "clip": clip, "flag": bool(rng.integers(2)), "low": bool(rng.integers(2)),
         "score": bool(rng.integers(2)), "which": int(rng.integers(20)), "window": int(rng.integers(2, 5)), "freq": int(rng.integers(1, 6))}
    if tool == "realized":
        c["intraday"] = int(rng.integers(1, 4))
        c["clip"] = None
    if tool == "lasso":
        c["scale"] = 1.0
        c["T"] = int(rng.integers(9, 13))
    if tool == "factor":
        c["rank"] = int(rng.integers(1, min(n, 3)))
        c["memory"] = 3 * c["rank"] + 8 + int(rng.integers(0, 3))
        c["T"] = c["memory"] + int(rng.integers(6, 12))
    if tool == "backtest":
        c["T"] = int(rng.integers(14, 20))
        c["scale"] = 0.01
    if tool == "comb":
        c["T"] = int(rng.integers(17, 23))
    c.update(kw)
    return c
