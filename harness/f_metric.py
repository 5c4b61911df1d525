"""Family 10: summary statistics, stored covariances, uncertainties and tables against Metrics.tla (C33, C34, C36)."""
from __future__ import annotations

import contextlib
import copy
import io

import numpy as np
import pandas as pd

import f_score
import f_trader
from f_ewma import index, labels
from f_score import pd_matrix
from vlib import guarded, nmat, num, nums, perm


def run_turnover(case):
    f_trader.modules()
    from experiments.utils.experiment_utils import turnover
    rng = np.random.default_rng(case["seed"])
    T, n = case["T"], case["n"]
    W = rng.normal(size=(T, n)) * case["scale"]
    W[:, 0] += case["scale"]
    if case["hold"]:
        for t in range(1, T):
            if rng.random() < 0.5:
                W[t] = W[t - 1]
    if case["sparse"]:
        W[:, 1:][rng.random((T, n - 1)) < 0.5] = 0.0
    if case.get("empty"):                    # a time without holdings
        t = rng.integers(T)
        W[t : t + rng.integers(1, 3)] = 0.0
    v, err = guarded(lambda: float(turnover(W.copy())))
    return {"kind": "turnover", "err": err or "", "v": "nan" if err else num(v), "ev": [{"w": nums(w)} for w in W], "case": dict(case)}


class Rets:
    """what yearly_SR reads of a trader"""

    def __init__(self, rets, returns):
        self.rets, self.returns = rets, returns


def run_years(case):
    f_trader.modules()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from experiments.utils.experiment_utils import yearly_SR
    rng = np.random.default_rng(case["seed"])
    days = []
    for y, k in zip(range(case["y0"], case["y0"] + len(case["per"])), case["per"]):
        d = pd.date_range(f"{y}-01-01", f"{y}-12-31", freq="D")
        days += list(d[np.sort(rng.permutation(len(d))[:k])])
    ix = pd.DatetimeIndex(days)
    r = rng.normal(size=len(ix)) * case["scale"] + 0.1 * case["scale"] * rng.normal()
    R = pd.DataFrame(rng.normal(size=(len(ix), 2)), index=ix)
    plot = bool(case["plot"])
    tr = Rets(r.reshape(-1, 1) if case["column"] else r.copy(), R)

    def go():
        plt.close("all")
        sr = yearly_SR(tr) if plot else yearly_SR(tr, plot=False)
        line = []
        if plot:
            for ln in plt.gca().get_lines():
                if ln.get_label() == "Trend":
                    x = pd.DatetimeIndex(pd.to_datetime(ln.get_xdata()))
                    line = [{"year": int(a.year), "sr": num(b)} for a, b in zip(x, np.asarray(ln.get_ydata(), dtype=float))]
        plt.close("all")
        return [{"year": int(t.year), "sr": num(v)} for t, v in sr.items()], line
    res, err = guarded(go)
    out, line = res if err is None else ([], [])
    return {"kind": "years", "err": err or "", "plot": plot, "out": out, "line": line, "ev": [{"year": int(t.year), "r": num(x)} for t, x in zip(ix, r)], "case": dict(case)}


def run_ecdf(case):
    f_trader.modules()
    from experiments.utils.experiment_utils import ecdf
    rng = np.random.default_rng(case["seed"])
    x = rng.normal(size=case["T"]) * case["scale"]
    if case["ties"]:
        x = np.round(x / case["scale"], 0)
    form = {"array": lambda: x.copy(), "list": lambda: list(x), "series": lambda: pd.Series(x, index=index(case["index"], len(x)))}[case["form"]]
    res, err = guarded(lambda: ecdf(form()))
    return {"kind": "ecdf", "err": err or "", "x": [] if err else nums(res[0]), "y": [] if err else nums(res[1]), "ev": [{"x": num(v)} for v in x], "case": dict(case)}


def run_rows(case):
    f_trader.modules()
    import experiments.utils.experiment_utils as xu
    rng = np.random.default_rng(case["seed"])
    n, T = case["n"], case["T"]
    M = rng.normal(size=(T, n * (n + 1) // 2)) * case["scale"]
    if case["single"]:
        res, err = guarded(lambda: [xu.from_row_to_covariance(m.copy(), n) for m in M])
    else:
        res, err = guarded(lambda: list(xu.from_row_matrix_to_covariance(M.copy(), n)))
    res = res or []
    return {"kind": "rows", "err": err or "", "n": n, "count": len(res),
            "ev": [{"row": nums(M[t]), "S": nmat(np.asarray(res[t], dtype=float)) if t < len(res) else []} for t in range(T)], "case": dict(case)}


def run_load(case):
    f_trader.modules()
    from experiments.utils.experiment_utils import add_to_diagonal
    rng = np.random.default_rng(case["seed"])
    n, T = case["n"], case["T"]
    ix, cols = index(case["index"], T), pd.Index(labels(case["labels"], n, rng))
    S = {t: pd.DataFrame(pd_matrix(n, rng, case["scale"]), index=cols, columns=cols) for t in ix}
    res, err = guarded(lambda: add_to_diagonal(copy.deepcopy(S), case["la"]))
    stamps, by = f_score.emitted(res, ix, cols) if err is None else ([], {})
    ev = []
    for k, t in enumerate(ix):
        o = by.get(k + 1, {"rl": [], "cl": [], "cov": nmat(np.full((n, n), np.nan))})
        ev.append({"S": nmat(S[t].values), "rl": o["rl"], "cl": o["cl"], "out": o["cov"]})
    return {"kind": "load", "err": err or "", "n": n, "la": num(case["la"]), "stamps": stamps, "ev": ev, "case": dict(case)}


def run_rho(case):
    tm, _ = f_trader.modules()
    rng = np.random.default_rng(case["seed"])
    R = f_score.frame(case, rng)
    T, n = R.shape
    if case["missing"]:
        R = R.mask(rng.random((T, n)) < 0.15)
        if rng.random() < 0.5:
            R.iloc[: rng.integers(T), 0] = np.nan
    if case["mean"]:
        R += 3 * case["scale"]
    kw = {} if case["devs"] == 2 else {"n_devs": case["devs"]}
    rho, err = guarded(lambda: tm.construct_rho(R.copy(), **kw))
    il = cl = []
    V = np.full((T, n), np.nan)
    if err is None:
        il, cl = perm(rho.index, R.index), perm(rho.columns, R.columns)
        V = rho.values if rho.shape == (T, n) else V
    # a variance is a difference of squares: its rounding error has the size of the square
    return {"kind": "rho", "err": err or "", "n": n, "devs": num(case["devs"]), "sizes": nums(np.nanmax(np.abs(np.nan_to_num(R.values)), axis=0)), "il": il, "cl": cl,
            "ev": [{"r": nums(R.values[t]), "v": nums(V[t])} for t in range(T)], "case": dict(case)}


def parse(text):
    out = []
    for ln in text.splitlines():
        ln = ln.strip()
        if "&" not in ln or ln.startswith("{"):
            continue
        f = [x.strip() for x in ln.rstrip("\\ ").split("&")]
        v = [x.replace("\\%", "").strip() for x in f[1:]]
        out.append([f[0]] + v)
    return out


def run_table(case):
    _, pb = f_trader.modules()
    rng = np.random.default_rng(case["seed"])
    names = [["PRESCIENT", "CM-IEWMA", "EWMA", "PRESCIENT-10", "RW", "Prescient", 20, "GARCH (1, 1)"][k] for k in rng.permutation(8)[: case["k"]]]
    if case["prescient"] and "PRESCIENT" not in names:
        names[rng.integers(len(names))] = "PRESCIENT"
    T, n = case["T"], case["n"]
    ix = index(case["index"], T)
    trs = {}
    for nm in names:
        cols = labels(case["labels"], n, rng)
        S = {t: pd.DataFrame(pd_matrix(n, rng, case["scale"]), index=cols, columns=cols) for t in ix}
        R = pd.DataFrame(rng.normal(size=(T, n)) * case["scale"] + 0.02 * case["scale"] * rng.normal(), index=ix, columns=cols)
        tr = pb.Trader(R, S)
        if case.get("cash"):             # already trades cash
            tr.backtest(portfolio_type="vol_cont", adjust_factor=1, additonal_cons={}, sigma_des=0.08)
        else:
            tr.backtest(portfolio_type="eq_weighted", adjust_factor=1)
        trs[nm] = tr
    rf = pd.Series(rng.random(T) * 0.01 * case["scale"], index=ix)
    want = {}
    for nm, tr in trs.items():
        kw = dict(diluted_with_cash=True, sigma_des=case["sig"]) if case["sig"] else dict(diluted_with_cash=False)
        want[nm] = copy.deepcopy(tr).get_metrics(rf=rf.copy(), excess=case["excess"], **kw)
    buf = io.StringIO()

    def go():
        with contextlib.redirect_stdout(buf):
            pb.create_table(trs, case["sig"], rf.copy(), case["excess"], **({} if case["prescient"] else {"prescient": False}))
    _, err = guarded(go)
    rows = parse(buf.getvalue())
    order = [x for x in names if x != "PRESCIENT"] + (["PRESCIENT"] if case["prescient"] else [])
    ev = []
    for k, nm in enumerate(order):
        m = want[nm]
        r = rows[k] if k < len(rows) and len(rows[k]) == 5 else ["", "nan", "nan", "nan", "nan"]
        ev.append({"name": r[0], "wantname": str(nm), "ret": r[1], "risk": r[2], "sharpe": r[3], "dd": r[4],
                   "m": {"ret": num(m.mean_return), "risk": num(m.risk), "sharpe": num(m.sharpe), "dd": num(m.drawdown)}})
    return {"kind": "table", "err": err or "", "lines": len(rows), "ev": ev, "case": dict(case)}


RUN = {"turnover": run_turnover, "years": run_years, "ecdf": run_ecdf, "rows": run_rows, "load": run_load, "rho": run_rho, "table": run_table}


def execute(case):
    return RUN[case["kind"]](case)


def rand_case(rng, kind, **kw):
    c = {"kind": kind, "seed": int(rng.integers(1 << 31)), "n": int(rng.integers(1, 7)), "T": int(rng.integers(2, 14)), "scale": float(rng.choice([1.0, 0.01, 1e-3, 50.0])),
         "index": ["days", "range", "str", "irregular", "float", "unsorted", "newest", "tz"][rng.integers(8)], "labels": ["str", "unsorted", "int", "range"][rng.integers(4)]}
    if kind == "turnover":
        c.update(hold=bool(rng.integers(2)), sparse=bool(rng.integers(2)), empty=bool(rng.random() < 0.15))
    elif kind == "years":
        ks = [0, 1, 99, 100, 101, 102, 150, 252, 365]
        c.update(y0=int(rng.integers(1985, 2020)), per=[int(ks[k]) for k in rng.integers(1, len(ks), size=rng.integers(1, 6))], plot=False, column=bool(rng.integers(2)))
        if rng.random() < 0.3:
            c["per"][rng.integers(len(c["per"]))] = 0
        if rng.random() < 0.4:
            c.update(plot=True, per=[int(k) for k in rng.choice([101, 130, 252, 252, 60], size=rng.integers(3, 7))])
        if c["plot"] and max(c["per"]) < 101:
            c["per"][0] = 120
        if sum(c["per"]) == 0:
            c["per"][0] = 120
    elif kind == "ecdf":
        c.update(ties=bool(rng.integers(2)), form=["array", "list", "series"][rng.integers(3)], T=int(rng.integers(1, 25)))
    elif kind == "rows":
        c.update(single=bool(rng.integers(2)))
    elif kind == "load":
        c.update(la=float(rng.choice([0.05, 0.0, 0.5, 2.0, 1e-4])))
    elif kind == "rho":
        c.update(T=int(rng.integers(1, 25)), devs=float(rng.choice([2, 2, 1, 0.5, 3])), missing=bool(rng.integers(2)), mean=bool(rng.random() < 0.3))
    elif kind == "table":
        c.update(k=int(rng.integers(1, 6)), sig=[0.1, 0.05, 0, None][rng.integers(4)], excess=bool(rng.integers(2)), prescient=bool(rng.integers(4)), T=int(rng.integers(5, 20)), scale=0.01)
        if not c["sig"] and rng.random() < 0.4:
            c.update(cash=True, T=int(rng.integers(3, 6)), k=int(rng.integers(1, 4)))
    c.update(kw)
    return c
