"""Family 8: return predictors and their combination against ReturnComb (C30)."""
from __future__ import annotations

import numpy as np
import pandas as pd

import f_trader
from f_ewma import index, labels
from vlib import guarded, num, nums, perm


def data(case):
    """returns of all assets, predictions per asset; the returns may have more dates than the predictions"""
    rng = np.random.default_rng(case["seed"])
    T, K, n = case["T"], case["K"], case["n"]
    extra = case.get("extra", 0)
    ix = index(case["index"], T + extra)
    cols = labels(case["labels"], n, rng)
    R = pd.DataFrame(rng.normal(size=(T + extra, n)) * case["scale"], index=ix, columns=cols)
    if case.get("spike"):
        R.iloc[rng.integers(len(R))] *= 30
    keep = np.sort(rng.permutation(T + extra)[:T]) if extra else np.arange(T)
    preds = []
    for i in range(n):
        X = rng.normal(size=(T, K)) * case["scale"] * np.exp(rng.normal(size=K))
        X += case.get("signal", 0.0) * R.values[keep, i][:, None]
        preds.append(pd.DataFrame(X, index=ix[keep], columns=labels(case["plabels"], K, rng)))
    return R, preds, keep


def events(R, i, X, keep, W, hat, cols):
    """one event per prediction time"""
    at = {q: k for k, q in enumerate(perm(W.index, X.index))} if W is not None else {}
    ht = {q: k for k, q in enumerate(perm(hat.index, X.index))} if hat is not None else {}
    ev = []
    for t in range(len(X)):
        e = {"x": nums(X.values[t]), "r": num(R.values[keep[t], i]), "has": t + 1 in at and t + 1 in ht}
        if e["has"]:
            e.update(w=nums(W.values[at[t + 1]]), hat=num(hat.values[ht[t + 1]]), lab=perm(W.columns, cols))
        ev.append(e)
    return ev


def run_comb(case):
    f_trader.modules()
    from experiments.utils.return_combination import ReturnCombinator
    R, preds, keep = data(case)
    i = case["i"]
    res, err = guarded(lambda: ReturnCombinator().fit(R.copy(), [p.copy() for p in preds], case["memory"], case["alpha"]))
    W = hat = None
    if err is None:
        hats, ws = res
        W = ws[i]
        if list(hats.columns) != list(R.columns):
            err = "columns of the predictions"
        else:
            hat = hats.iloc[:, i]
            if list(hat.index) != list(W.index):
                err = "times of weights and predictions"
    ev = events(R, i, preds[i], keep, W, hat, preds[i].columns)
    return {"kind": "comb", "K": case["K"], "memory": case["memory"], "alpha": num(case["alpha"]), "stamps": [] if W is None else perm(W.index, preds[i].index),
            "first": case["memory"] + 1, "err": err or "", "ev": ev, "case": dict(case)}


def run_lasso(case):
    f_trader.modules()
    from experiments.utils.return_combination import ReturnCombinatorOld, ewma_return_combination
    R, preds, keep = data({**case, "n": 1, **({} if case["old"] else {"extra": 0})})
    r, X = R.iloc[:, 0], preds[0]

    def go():
        if case["old"]:
            c = ReturnCombinatorOld()
            c.build(case["memory"], case["K"], case["alpha"])
            return c.fit(r.copy(), X.copy())
        return ewma_return_combination(r.copy(), X.copy(), case["alpha"], case["memory"])
    res, err = guarded(go)
    hat, W = res if err is None else (None, None)
    ev = events(R, 0, X, keep, W, hat, X.columns)
    return {"kind": "lasso", "K": case["K"], "memory": case["memory"], "alpha": num(case["alpha"]), "stamps": [] if W is None else perm(W.index, X.index),
            "first": case["memory"] + 1, "err": err or "", "ev": ev, "case": dict(case)}


def run_pred(case):
    f_trader.modules()
    import experiments.utils.return_combination as rc
    R, _, _ = data({**case, "n": 1})
    r = R.iloc[:, 0]
    lag = case["kind"] == "lagpred"
    res, err = guarded(lambda: (rc.daily_predictors if lag else rc.ewma_predictors)(r.copy(), list(case["pars"])))
    at = {}
    if err is None:
        if list(res.columns) != list(case["pars"]):
            err = "columns"
        at = {q: k for k, q in enumerate(perm(res.index, r.index))}
    ev = [{"r": num(r.values[t]), "o": nums(res.values[at[t + 1]]) if t + 1 in at else ["nan"] * len(case["pars"])} for t in range(len(r))]
    return {"kind": case["kind"], "pars": [int(x) for x in case["pars"]] if lag else nums(case["pars"]), "size": num(np.abs(r).max()),
            "stamps": perm(res.index, r.index) if err is None else [], "first": 1 if lag else 2, "err": err or "", "ev": ev, "case": dict(case)}


def run_split(case):
    f_trader.modules()
    from experiments.utils.return_combination import feature_engineer
    R, preds, _ = data({**case, "n": 1})
    X = preds[0]
    X[np.random.default_rng(case["seed"]).random(X.shape) < 0.15] = 0.0
    res, err = guarded(lambda: feature_engineer(X))
    ev = [{"x": nums(X.values[t]), "o": nums(res.values[t]) if err is None and t < len(res) else [], "lab": perm(res.columns, X.columns) if err is None else []} for t in range(len(X))]
    return {"kind": "split", "stamps": perm(res.index, X.index) if err is None else [], "first": 1, "err": err or "", "ev": ev, "case": dict(case)}


def run_tune(case):
    f_trader.modules()
    from experiments.utils.return_combination import ReturnCombinator, tune_alpha
    R, preds, keep = data(case)
    alphas = list(case["alphas"])
    res, err = guarded(lambda: tune_alpha(R.copy(), [p.copy() for p in preds], alphas, memory=case["memory"]))
    ev = []
    if err is None:
        a, corr, rmse, ws = res
        for k in range(len(alphas)):
            H = np.column_stack([(w * p.loc[w.index]).sum(axis=1).values for w, p in zip(ws[k], preds)])
            Y = R.loc[ws[k][0].index].values
            one, err1 = guarded(lambda: ReturnCombinator().fit(pd.DataFrame(R), [p.copy() for p in preds], case["memory"], alphas[k]))
            same = err1 is None and len(one[1]) == len(ws[k]) and all(
                list(x.index) == list(y.index) and list(x.columns) == list(y.columns) and np.allclose(x, y, rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(x.values), initial=0), equal_nan=True)
                for x, y in zip(one[1], ws[k]))
            ev.append({"same": bool(same), "alpha": num(list(a)[k]), "asked": num(alphas[k]), "h": nums(H.flatten()), "r": nums(Y.flatten()), "corr": num(corr[k]), "rmse": num(rmse[k])})
    return {"kind": "tune", "stamps": list(range(1, len(ev) + 1)), "first": 1, "err": err or "", "ev": ev, "case": dict(case)}


RUN = {"comb": run_comb, "lasso": run_lasso, "lagpred": run_pred, "ewmapred": run_pred, "split": run_split, "tune": run_tune}


def execute(case):
    return RUN[case["kind"]](case)


def rand_case(rng, kind, **kw):
    n, K = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    memory = int(rng.integers(1, 9))
    c = {"kind": kind, "seed": int(rng.integers(1 << 31)), "n": n, "K": K, "memory": memory, "T": memory + int(rng.integers(0, 10)), "scale": float(rng.choice([1.0, 0.01, 1e-3, 1e-6])),
         "alpha": float(rng.choice([1e-3, 0.1, 1.0, 30.0])), "index": ["days", "range", "str", "irregular", "float", "unsorted", "newest", "tz"][rng.integers(8)],
         "labels": ["str", "unsorted", "int", "range"][rng.integers(4)], "plabels": ["str", "int", "range"][rng.integers(3)], "signal": float(rng.choice([0, 0, 0.5])), "spike": bool(rng.random() < 0.3),
         "i": int(rng.integers(n)), "extra": int(rng.choice([0, 0, 0, 1, 4]))}
    if kind == "lasso":
        c["scale"] = 1.0      # the solver's absolute tolerance is no property of the combination
        c.update(old=bool(rng.integers(2)), T=memory + int(rng.integers(1, 4)), alpha=float(rng.choice([0.02, 0.3, 3.0])) * c["scale"] ** 2 * memory)
    elif kind == "lagpred":
        c.update(T=int(rng.integers(2, 15)), pars=[int(x) for x in rng.permutation(6)[: 1 + rng.integers(4)] + 1], extra=0)
    elif kind == "ewmapred":
        c.update(T=int(rng.integers(2, 30)), pars=[float(x) for x in rng.permutation([0.5, 1, 5, 10, 21, 63, 125, 250])[: 1 + rng.integers(4)]], extra=0)
    elif kind == "split":
        c.update(T=int(rng.integers(1, 12)), extra=0)
    elif kind == "tune":
        c.update(T=memory + int(rng.integers(3, 10)), alphas=[float(x) for x in rng.permutation([1e-3, 0.1, 1.0, 10.0])[: 1 + rng.integers(3)]], signal=0.5)
    c.update(kw)
    return c
