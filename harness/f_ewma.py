"""Family 1: volatility / center / clip / iterated_ewma against Ewma.tla, Iewma.tla (C01-C06)."""
from __future__ import annotations

import functools
import json
import os
import re

import numpy as np
import pandas as pd

from vlib import REPO, guarded, nmat, num, nums, perm, pmap


# ------------------------------------------------------------------ data

def labels(kind, n, rng):
    if kind == "str":
        return [f"A{i}" for i in range(n)]
    if kind == "unsorted":
        return [f"{c}{'x' * (1 + i // 12)}" for i, c in enumerate("qbzamfycdkjh"[k % 12] for k in range(n))]
    if kind == "int":
        return [int(v) for v in rng.permutation(n) * 7 + 3]
    if kind == "tuple":
        return pd.MultiIndex.from_tuples([("g%d" % (i % 2), i) for i in range(n)])
    return list(range(n))


def index(kind, T):
    if kind == "days":
        return pd.date_range("2020-01-03", periods=T, freq="B")
    if kind == "irregular":
        return pd.to_datetime("2019-12-30") + pd.to_timedelta(np.cumsum(np.arange(T) % 5 + 1), unit="D")
    if kind == "str":
        return pd.Index([f"t{i:04d}" for i in range(T)])
    if kind == "period":
        return pd.period_range("2001-01", periods=T, freq="M")
    if kind == "float":
        return pd.Index(np.arange(T) * 0.5 + 10.0)
    if kind == "unsorted":              # in time order, which is not the order of the labels
        return pd.Index([f"{t % 12 + 1}/{t % 7 + 1}/{t}" for t in range(T)])
    if kind == "newest":
        return pd.Index(range(2000, 2000 - T, -1))
    if kind == "tz":
        return pd.date_range("2020-10-20", periods=T, freq="D", tz="America/New_York")
    if kind.startswith("around"):       # 0 at the given position (from 1)
        return pd.RangeIndex(1 - int(kind[6:]), 1 - int(kind[6:]) + T)
    return pd.RangeIndex(5, 5 + T) if kind == "range" else pd.RangeIndex(T)


VAL = {"Z": lambda r: 0.0, "N": lambda r: np.nan,
       "S": lambda r: r.normal() * (1 + r.random() * 0.01),
       "B": lambda r: r.choice([-1, 1]) * (20 + 40 * r.random()),
       "T": lambda r: r.normal() * 1e-3}


def realise(classes, rng, scales=None):
    """classes: T x n letters -> returns values"""
    T, n = len(classes), len(classes[0])
    scales = scales if scales is not None else np.ones(n)
    return np.array([[VAL[classes[t][i]](rng) * scales[i] for i in range(n)] for t in range(T)], dtype=float)


def rand_classes(T, n, rng, profile):
    c = np.full((T, n), "S", dtype=object)
    if "spike" in profile:
        c[rng.random((T, n)) < 0.08] = "B"
    if "tiny" in profile:
        c[rng.random((T, n)) < 0.1] = "T"
    if "zero" in profile:
        c[rng.random((T, n)) < 0.15] = "Z"
    if "nan" in profile:
        c[rng.random((T, n)) < 0.12] = "N"
    if "late" in profile:           # asset listed late
        for i in range(n):
            if rng.random() < 0.5:
                c[: rng.integers(0, T), i] = rng.choice(["N", "Z"])
    if "dead" in profile:           # asset that never trades
        c[:, rng.integers(0, n)] = rng.choice(["N", "Z"])
    if "start" in profile:          # nothing trades at first
        c[: rng.integers(1, 2 + T // 2), :] = rng.choice(["N", "Z"])
    if "delist" in profile:
        c[rng.integers(0, T):, rng.integers(0, n)] = rng.choice(["N", "Z"])
    if "idle" in profile:
        c[rng.integers(3, 7):, rng.integers(0, n)] = rng.choice(["N", "Z"])
    if "gapday" in profile:
        c[rng.integers(0, T), :] = "N"
    return c


REAL = {"ff5": "experiments/data/ff5_no_rf.csv", "stocks": "book/marimo/data/stock_prices.csv", "sp25": "experiments/data/SP500_top25_adjusted.csv"}


@functools.lru_cache(None)
def history(name):
    """the data the README, the book and the experiments work on"""
    p = os.path.join(REPO, REAL[name])
    d = pd.read_csv(p, index_col=0, header=0, parse_dates=True)
    return d.pct_change().dropna(axis=0, how="all") if name == "stocks" else d


def real(case, rng):
    d = history(case["real"])
    a = int(rng.integers(0, max(1, len(d) - case["T"])))
    cols = np.sort(rng.permutation(d.shape[1])[: case["n"]])
    return d.iloc[a: a + case["T"], cols].copy()


def frame(case):
    rng = np.random.default_rng(case["seed"])
    if case.get("real"):
        return real(case, rng)
    classes = case.get("classes")
    T, n = case["T"], case["n"]
    if classes is None:
        classes = rand_classes(T, n, rng, case["profile"])
    scales = case["scale"] * np.exp(rng.normal(size=n) * case.get("spread", 0.7))
    x = realise(classes, rng, scales)
    if case.get("factor") and n > 1:   # correlated assets
        f = rng.normal(size=T)[:, None] * scales * 0.8
        x = np.where((x != 0) & ~np.isnan(x), x + f, x)
    if case.get("drift"):
        x = np.where((x != 0) & ~np.isnan(x), x + case["drift"] * scales, x)
    if case.get("int") and not np.isnan(x).any():      # e.g. returns in basis points
        x = np.round(x / case["scale"] * 4).astype(int)
        if T > 1:                      # a column that starts with the same value twice is centred to 0/0
            x[1] += (x[1] == x[0]) & (x[0] != 0)
    return pd.DataFrame(x, index=index(case.get("index", "range"), T), columns=labels(case.get("labels", "str"), n, rng))


# ------------------------------------------------------------------ recording

def rowmap(fr, ref):
    """position of each row of fr in the reference index"""
    return perm(fr.index, ref)


def base(case, R, kind, p):
    return {"kind": kind, "p": p, "case": {k: v for k, v in case.items() if k != "classes"}, "emits": [], "err": ""}


def run_vol(case):
    from cvx.covariance.ewma import volatility
    R = frame(case)
    h, mp, c = case["hv"], case["mpv"], case["clip"]
    run = base(case, R, "vol", {"n": R.shape[1], "h": num(h), "mp": mp, "clip": "" if c is None else num(c)})
    kw = {} if case.get("defaults") else dict(min_periods=mp, clip_at=c)
    v, err = guarded(lambda: volatility(R.copy(), h, **kw))
    run["err"] = err or ""
    pos = rowmap(v, R.index) if err is None else []
    run["emits"] = pos
    at = {q: k for k, q in enumerate(pos)}
    run["ev"] = []
    for t in range(len(R)):
        e = {"r": nums(R.values[t]), "has": (t + 1) in at}
        if e["has"]:
            e["o"] = {"v": nums(v.values[at[t + 1]]), "lab": perm(v.columns, R.columns)}
        run["ev"].append(e)
    return run


def run_center(case):
    from cvx.covariance.ewma import center
    R = frame(case)
    run = base(case, R, "center", {"n": R.shape[1], "h": num(case["hv"]), "mp": case["mpv"], "mean": bool(case["mean"])})
    res, err = guarded(lambda: center(R.copy(), case["hv"], min_periods=case["mpv"], mean_adj=case["mean"]))
    run["err"] = err or ""
    run["ev"] = []
    c, m = (res if err is None else (R.iloc[:0], R.iloc[:0]))
    cp, mp_ = rowmap(c, R.index), rowmap(m, R.index)
    run["emits"] = cp
    ca, ma = {q: k for k, q in enumerate(cp)}, {q: k for k, q in enumerate(mp_)}
    for t in range(len(R)):
        o = {"chas": (t + 1) in ca, "mhas": (t + 1) in ma}
        if o["chas"]:
            o["c"], o["clab"] = nums(c.values[ca[t + 1]]), perm(c.columns, R.columns)
        if o["mhas"]:
            o["m"], o["mlab"] = nums(m.values[ma[t + 1]]), perm(m.columns, R.columns)
        run["ev"].append({"r": nums(R.values[t]), "o": o})
    return run


def run_clip(case):
    from cvx.covariance.ewma import clip
    R = frame(case)
    c = case["clip"]
    run = base(case, R, "clip", {"n": R.shape[1], "clip": "" if c is None else num(c)})
    v, err = guarded(lambda: clip(R.copy(), c))
    run["err"] = err or ""
    pos = rowmap(v, R.index) if err is None else []
    run["emits"] = pos
    at = {q: k for k, q in enumerate(pos)}
    run["ev"] = []
    for t in range(len(R)):
        e = {"r": nums(R.values[t]), "has": (t + 1) in at}
        if e["has"]:
            e["o"] = {"v": nums(v.values[at[t + 1]]), "lab": perm(v.columns, R.columns)}
        run["ev"].append(e)
    return run


def iewma_kw(case):
    kw = dict(min_periods_vola=case["mpv"], min_periods_cov=case["mpc"], mean=case["mean"], clip_at=case["clip"])
    if case.get("hm1") is not None:
        kw["mu_halflife1"] = case["hm1"]
    if case.get("hm2") is not None:
        kw["mu_halflife2"] = case["hm2"]
    if not case.get("nan0", True):
        kw["nan_to_num"] = False
    return {} if case.get("defaults") else kw


def run_iewma(case):
    from cvx.covariance.ewma import iterated_ewma
    R = frame(case)
    n = R.shape[1]
    c = case["clip"]
    p = {"n": n, "hv": num(case["hv"]), "hc": num(case["hc"]), "hm1": num(case.get("hm1") or case["hv"]),
         "hm2": num(case.get("hm2") or case["hc"]), "mpv": case["mpv"], "mpc": case["mpc"],
         "clip": "" if c is None else num(c), "mean": bool(case["mean"]), "nan0": bool(case.get("nan0", True))}
    run = base(case, R, "iewma", p)
    res = []

    def go():
        for x in iterated_ewma(R.copy(), case["hv"], case["hc"], **iewma_kw(case)):
            res.append((x.time, pd.DataFrame(x.covariance).copy(), pd.Series(x.mean).copy(), pd.Series(x.volatility).copy()))
    _, err = guarded(go)
    run["err"] = err or ""
    pos = perm([r[0] for r in res], R.index)
    run["emits"] = pos
    at = {q: k for k, q in enumerate(pos)}
    run["ev"] = []
    for t in range(len(R)):
        e = {"r": nums(R.values[t]), "has": (t + 1) in at}
        if e["has"]:
            _, S, m, v = res[at[t + 1]]
            e["o"] = {"cov": nmat(S.values), "rlab": perm(S.index, R.columns), "clab": perm(S.columns, R.columns),
                      "m": nums(m.values), "mlab": perm(m.index, R.columns), "v": nums(v.values), "vlab": perm(v.index, R.columns)}
        run["ev"].append(e)
    return run


RUNNERS = {"vol": run_vol, "center": run_center, "clip": run_clip, "iewma": run_iewma}


def execute(case):
    return RUNNERS[case["kind"]](case)


# ------------------------------------------------------------------ scenarios

LABS = ["str", "unsorted", "int", "tuple", "range"]
IDX = ["days", "irregular", "str", "period", "float", "range", "zero", "unsorted", "newest", "tz"]


def rand_case(kind, rng, T=None, n=None, profiles=None, **kw):
    n = int(n or rng.choice([1, 2, 3, 4, 5], p=[0.12, 0.3, 0.28, 0.2, 0.1]))
    T = int(T or rng.integers(3, 41))
    prof = profiles[rng.integers(len(profiles))] if profiles else ["plain", "spike", "spike+tiny", "zero", "tiny"][rng.integers(5)]
    mpv = int(rng.choice([0, 1, 2, 3, 5, 8], p=[0.06, 0.14, 0.2, 0.2, 0.2, 0.2]))
    mpc = int(rng.choice([0, 1, 2, 3, 5, 8], p=[0.06, 0.14, 0.2, 0.2, 0.2, 0.2]))
    case = {"kind": kind, "seed": int(rng.integers(1 << 31)), "T": T, "n": n, "profile": prof,
            "scale": float(rng.choice([1e-2, 1.0, 1e-4, 30.0], p=[0.6, 0.2, 0.1, 0.1])), "factor": bool(rng.random() < 0.5),
            "drift": float(rng.choice([0, 0, 0.5, -2.0])),
            "hv": float(rng.choice([1, 2, 3, 5.5, 10, 21, 63, 0.7])), "hc": float(rng.choice([1, 2, 4, 7.5, 21, 63, 125, 0.6])),
            "mpv": mpv, "mpc": mpc, "clip": None, "mean": False,
            "labels": LABS[rng.integers(len(LABS))], "index": IDX[rng.integers(len(IDX))]}
    if kind in ("vol",) and prof == "plain" and rng.random() < 0.1:
        case["hv"] = int(max(1, case["hv"]))
    case["int"] = bool(rng.random() < 0.08)
    case.update(kw)
    if case["mean"]:
        case["mpv"] = max(case["mpv"], 2)
    return case


CLIPS = [1.0, 1.5, 2.5, 4.2, 0.8, 3, 6.5]


def from_classes(kind, classes, rng, **kw):
    case = rand_case(kind, rng, T=len(classes), n=len(classes[0]), **kw)
    case["classes"] = [list(r) for r in classes]
    case["profile"] = "model"
    return case


def mc_classes(result):
    """class sequences printed by the model (PrintT(<<"BEH", json>>))"""
    out = []
    for p in result.tagged("BEH"):
        m = re.match(r'<<"BEH", "(.*)">>$', p)
        out.append(json.loads(m.group(1).replace('\\"', '"')))
    return out
