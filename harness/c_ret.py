"""Check C30."""
import numpy as np

import f_ret as f
from vlib import pmap


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    X = 15 if ck.thorough else 1
    ck.model("MCReturnComb", consts={"Depth": 3, "Vals": '{"1", "-2", "0.5"}' if ck.thorough else '{"1", "-2"}', "Memories": "{1, 2}"},
             invariants=["C30_Window", "C30_Starts", "C30_Causal", "C30_Optimal", "C30_Sum", "C30_Bound"])
    cases = [f.rand_case(rng, "comb") for _ in range(130 * X)]
    cases += [f.rand_case(rng, "comb", T=90, memory=60, n=2, K=3, extra=0, i=1) for _ in range(2 * X)]
    cases += [f.rand_case(rng, "comb", T=m + 2, memory=m, n=1, K=2, extra=0, i=0) for m in rng.integers(100, 300, size=2 * X).tolist()]
    cases += [f.rand_case(rng, "comb", T=14, memory=10, n=int(rng.integers(5, 9)), K=int(rng.integers(4, 9)), extra=0, i=1) for _ in range(2 * X)]
    cases += [f.rand_case(rng, "lagpred", T=500, pars=[1, 21, int(rng.integers(252, 400))]), f.rand_case(rng, "ewmapred", T=700, pars=[300.0, 1000.0])]
    cases += [f.rand_case(rng, "lasso") for _ in range(60 * X)]
    for k, m in (("lagpred", 40), ("ewmapred", 60), ("split", 40), ("tune", 30)):
        cases += [f.rand_case(rng, k) for _ in range(m * X)]
    runs = pmap(f.execute, cases)
    ck.validate("TraceReturn", runs, shards=4)
    ck.extra["rule"] = "seeded random returns and predictions (signals, spikes, extra dates), memories, penalties, lags and half-lives, label and index types"
