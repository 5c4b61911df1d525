"""Checks C37 and C38: the experiment tools end to end."""
import numpy as np

import f_combine as fc
import f_tool as f
from vlib import pmap

SLOW = {"lasso": 0.5, "factor": 0.6, "backtest": 1.0, "comb": 0.8}


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    X = 10 if ck.thorough else 1
    cases = []
    if ck.prop == "C37":
        for k, mem in ((5, 2), (6 if ck.thorough else 5, 3)):
            m = ck.model("MCPipeline", consts={"MaxT": k, "Memory": mem, "Emit": "TRUE" if mem == 2 else "FALSE"}, invariants=["C37_NoPeek"])
            if mem == 2:
                behs = fc.mc_behaviours(m)
        for b in behs:      # every tool, kind of difference and place of the cut, on several histories
            tool = b["tool"].replace("_score", "")
            for _ in range(int(round(3 * SLOW.get(tool, 1) + 0.01)) * X):
                c = f.rand_case(rng, tool, "peek", score=b["tool"].endswith("_score"), how=b["how"])
                lo = f.first(c)
                c["cut"] = min(c["T"] - 1, lo + int((c["T"] - 1 - lo) * b["cut"] / (b["T"] - 1) + rng.random()))
                cases.append(c)
        mod = "TracePipeline"
    else:
        m = ck.model("MCIterators", consts={"Streams": 3, "Ops": 6 if ck.thorough else 5, "L1": 2, "L2": 1, "L3": 2, "Shared": "FALSE", "SplitPull": "FALSE", "Emit": "TRUE"}, invariants=["C13_Own"])
        scheds = [[[("pull" if o == "fail" else o), i] for o, i in s] for s in fc.mc_behaviours(m)]
        scheds = [s for s in scheds if sum(o == "pull" for o, _ in s) >= 2]
        for i in range(24 * X):
            for tool in f.NAMES:
                if rng.random() > SLOW.get(tool, 1):
                    continue
                a, b = (scheds[int(rng.integers(len(scheds)))] for _ in range(2))
                cases.append(f.rand_case(rng, tool, "pure", sched=[["create", k] for k in rng.permutation([1, 2, 3]).tolist()] * int(rng.integers(2)) + a + b, cap=30))
        mod = "TraceIter"
    runs = [r for r in pmap(f.execute, cases) if r is not None]
    ck.validate(mod, runs, shards=8 if ck.thorough else 4)
