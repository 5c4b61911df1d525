"""Checks C29 and C31."""
import numpy as np

import f_vec as f
from vlib import pmap


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    X = 15 if ck.thorough else 1
    d = {"mpv": 20, "mpc": 20, "clip": None, "mean": False, "defaults": True, "T": 48, "n": 3}
    if ck.prop == "C29":
        ck.model("MCVec", consts={"Depth": 5 if ck.thorough else 4, "Classes": '{"S", "B"}', "Which": "{1, 2, 3, 4}"}, invariants=["C29_Times", "C29_Same"])
        cases = [f.rand_case(rng, "vec") for _ in range(260 * X)]
        cases += [f.rand_case(rng, "vec", **{**d, "rank": i % 3}) for i in range(3 * X)]
        cases += [f.rand_case(rng, "vec", T=150, n=4, rank=i % 2 * 2) for i in range(2 * X)]
        cases += [f.rand_case(rng, "vec", T=int(rng.integers(300, 500)), n=2, rank=0) for i in range(X)]
        cases += [f.rand_case(rng, "vec", T=14, n=int(rng.integers(11, 20)), rank=i % 2 * 4) for i in range(2 * X)]
    else:
        ck.model("MCLowRank", consts={"Depth": 5 if ck.thorough else 4, "Vals": '{"1", "-2", "0.5"}', "Halves": '{"1", "3"}'},
                 invariants=["C31_Diagonal", "C31_NonNegative", "C31_PSD", "C31_Exact", "C31_Span", "C31_Scaled"])
        cases = [f.rand_case(rng, "low") for _ in range(260 * X)]
        cases += [f.rand_case(rng, "low", **{**d, "rank": i % 2 + 1}) for i in range(3 * X)]
        cases += [f.rand_case(rng, "low", T=150, n=7, rank=3) for i in range(2 * X)]
        cases += [f.rand_case(rng, "low", T=14, n=int(rng.integers(11, 20)), rank=int(rng.integers(2, 7))) for i in range(2 * X)]
    runs = pmap(f.execute, cases)
    ck.validate("TraceVec", runs, shards=4)
    ck.extra["rule"] = "seeded random complete histories (spikes, tiny returns, common factor, drift), half-lives, warm-ups, clip levels, ranks, label and index types, validated row by row"
