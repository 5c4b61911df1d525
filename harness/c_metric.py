"""Checks C33, C34 and C36."""
import numpy as np

import f_metric as f
import f_score
from vlib import pmap

INV = {"C33": ["C33_Turnover", "C33_Years", "C33_Trend", "C33_Sorted"], "C34": ["C34_Rows"], "C36": ["C36_Rho"]}
KINDS = {"C33": (("turnover", 60), ("years", 50), ("ecdf", 40)), "C34": (("rows", 60), ("load", 60)), "C36": (("rho", 120), ("table", 80))}


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    X = 12 if ck.thorough else 1
    ck.model("MCMetrics", consts={"Depth": 4 if ck.thorough else 3, "Vals": '{"1", "-1", "2"}', "Days": 1}, invariants=INV[ck.prop])
    if ck.prop == "C33":
        ck.validate("TraceScores", pmap(f_score.execute, [f_score.rand_case(rng, "mse") for _ in range(80 * X)] + [f_score.rand_case(rng, "mse", n=int(rng.integers(10, 30))) for _ in range(3 * X)]), shards=2)
    cases = [f.rand_case(rng, k) for k, m in KINDS[ck.prop] for _ in range(m * X)]
    if ck.prop == "C33":
        cases += [f.rand_case(rng, "turnover", n=30, T=60), f.rand_case(rng, "ecdf", T=400)]
    elif ck.prop == "C34":
        cases += [f.rand_case(rng, k, n=int(rng.integers(11, 25))) for k, _ in KINDS["C34"]]
    else:
        cases += [f.rand_case(rng, "rho", T=int(rng.integers(500, 700)), n=1) for _ in range(2 * X)]
    ck.validate("TraceMetrics", pmap(f.execute, cases), shards=4)
