"""Checks C22-C25."""
import numpy as np

import f_trader as f
from vlib import pmap

ACC = {"paired": {"period", "period_predictions", "paired_return", "paired_covariance", "paired_mean", "raised"}}
CLAUSES = {
    "C22": ACC["paired"] | {"returns", "optimal", "parity", "volatility", "backtest_raised", "shape", "equal", "limits"},
    "C23": {"returns", "diluted_returns", "mean", "risk", "sharpe", "drawdown", "growth", "report_raised", "risk_adjusted"},
    "C24": {"diluted", "dilute_raised", "diluted_returns", "report_without_target", "report_raised", "volatility", "cash_sum"},
    "C25": {"equal", "sum", "limits", "optimal", "parity", "positive", "cash_sum", "volatility", "inputs_modified", "backtest_raised", "shape", "finite", "raised"},
}


def scenarios(prop, rng, thorough, hists):
    X = 12 if thorough else 1
    cases = []
    if prop == "C22":
        for i in range(130 * X):
            cases.append(f.rand_class(rng, list(f.CLASSES)[i % len(f.CLASSES)]))
    elif prop in ("C23", "C24"):
        for i in range(220 * X):
            h = hists[int(rng.integers(len(hists)))]
            if i % 3 == 0:
                h = h + hists[int(rng.integers(len(hists)))]
            cases.append(f.rand_data(rng, ops=f.from_history(h, rng, cheap=bool(i % 2))))
        for i in range(60 * X):
            k = 1 + i % 2
            cases.append(f.rand_data(rng, traders=k, ops=f.rand_ops(rng, k, 8, types=["eq_weighted", "min_risk", "vol_cont", "mean_variance", "eq_weighted"])))
        for i in range(30 * X):          # traders made by the backtest classes
            cases.append(f.rand_class(rng, ["eq_weighted", "min_risk", "risk_parity", "eq_weighted", "max_diverse", "mean_variance"][i % 6], n=int(rng.integers(2, 4))))
        if prop == "C24":
            for i in range(30 * X):      # very calm and very wild markets
                cases.append(f.rand_data(rng, scale=float([1e-5, 1e-4, 0.5][i % 3]), ops=f.rand_ops(rng, 1, 5, types=["vol_cont", "eq_weighted", "vol_cont", "min_risk"])))
            for i in range(24 * X):      # calm and wild times in one history
                cases.append(f.rand_data(rng, H=int(rng.integers(4, 9)), regimes=[float(x) for x in rng.permutation([1, 1, 1, 4e4 if i % 2 else 2.5e-5, 100, 0.01])],
                                         ops=f.rand_ops(rng, 1, 3, types=["vol_cont", "eq_weighted", "vol_cont"])))
        if prop == "C23":
            for i in range(70 * X):      # long histories of returns, other units
                adj = float([1, 1, 100, 10][i % 4])
                ops = [{"op": "backtest", "type": "eq_weighted", "adj": adj}]
                for _ in range(4):
                    o = {"op": "report", "dil": bool(rng.integers(2)) if adj == 1 else False, "x": [None, 0.1, 0.3][rng.integers(3)], "metrics": bool(rng.random() < 0.7),
                         "rf": bool(rng.integers(2)), "excess": bool(rng.integers(2))}
                    ops.append(o if rng.random() < 0.85 else {"op": "riskadj", "x": 0.2})
                cases.append(f.rand_data(rng, H=int(rng.integers(1, 60)) if i % 35 else int(rng.integers(270, 300)), scale=float(rng.choice([0.01, 0.05, 0.7]) if i % 7 != 3 else [1e-5, 1e-7][i % 2]) * adj ** 0.5, ops=ops, plain=True))
    else:
        for i in range(150 * X):
            k = 1 + int(rng.random() < 0.3)
            ops = f.rand_ops(rng, k, 3, types=f.PLAIN + f.CASH + ["robust_min_risk", "mean_variance"])
            ops[0]["type"] = (f.PLAIN[1:] + f.CASH)[i % 7]
            cases.append(f.rand_data(rng, traders=k, n=int(rng.integers(2, 7)) if i % 5 else 9 if i % 25 else 20, ops=ops, posmu=bool(rng.random() < 0.8), strength=float(rng.choice([0.3, 0.6, 1.5])),
                                     ctor_rho=bool(rng.random() < 0.2)))
            if not cases[-1]["posmu"]:
                for o in ops:
                    if o.get("type") == "max_sharpe":
                        o["type"] = "mean_variance"
            if i % 6 == 0 and k == 1:    # other units
                for o in ops:
                    if o.get("type") == "mean_variance":
                        o["adj"] = float([10, 100, 0.1][i % 3])
        for i in range(40 * X):
            cases.append(f.rand_class(rng, list(f.CLASSES)[i % len(f.CLASSES)]))
    return cases


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    inv = {"C22": ["C23_Repeatable"], "C23": ["C23_Repeatable", "C23_Figures"], "C24": ["C23_Repeatable", "C24_Latest", "C24_Adjusted"], "C25": ["C23_Repeatable"]}[ck.prop]
    m = ck.model("MCTrader", consts={"Depth": 6 if ck.thorough else 4, "Emit": "TRUE"}, invariants=inv)
    if ck.prop in ("C22", "C25"):          # the bounds that decide optimality
        ck.model("MCPortfolio", consts={"Fine": "TRUE" if ck.thorough else "FALSE"}, invariants=["C25_MinRisk", "C25_MeanVar", "C25_Ratio", "C25_Tight"])
    hists = [h for h in f.mc_histories(m) if any(o["op"] == "report" or o["op"] == "dilute" for o in h)]
    runs = pmap(f.execute, scenarios(ck.prop, rng, ck.thorough, hists))
    C = CLAUSES[ck.prop]
    ck.validate("TraceTrader", runs, lambda run, clause: clause in C, shards=8 if ck.thorough else 4)
