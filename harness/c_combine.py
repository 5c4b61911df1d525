"""Checks C08-C12, C17, C18."""
import numpy as np

import f_combine as f
from vlib import pmap

INV = ["C08_Window", "C10_Unlagged", "C11_Restriction", "C12_Positions", "C11_Slices"]


def scenarios(prop, behs, rng, thorough):
    N = {"C08": 260, "C09": 130, "C10": 260, "C11": 130, "C12": 60, "C17": 300, "C18": 0}[prop] * (12 if thorough else 1)
    nb = {"C08": 60, "C09": 180, "C10": 60, "C11": 240, "C12": 260, "C17": 0, "C18": 0}[prop] * (12 if thorough else 1)
    pool = [b for b in behs if (prop == "C12" and b["fails"]) or (prop == "C11" and not b["fails"]) or prop not in ("C11", "C12")]
    pick = [pool[i] for i in rng.permutation(len(pool))[:nb]]
    cases = [f.from_model(b, rng) for b in pick]
    for i in range(N):
        kw = {}
        if prop == "C17":
            kw["same"] = ["all", "two", "now", "late", "now", None][i % 6]
            if kw["same"] in ("now", "late") and rng.random() < 0.7:
                kw.update(n=int(rng.integers(1, 3)), K=int(rng.integers(2, 6)), M=int(rng.integers(8, 20)), bias=float(rng.choice([0.3, 0.8])))
            if kw["same"] is None:
                kw["K"] = 1 if i % 2 else 5
                kw["window"] = 1 if i % 2 == 0 else None
                kw["n"] = int(rng.integers(1, 3))
        elif rng.random() < 0.12:
            kw["same"] = ["all", "two", "late"][rng.integers(3)]
        if rng.random() < 0.1:
            kw.update(experts="iewma", M=int(rng.integers(14, 24)), step=1, lead=0, tail=0, means=[None, "series"][rng.integers(2)], times=None,
                      n=int(rng.integers(1, 4)))
        if rng.random() < 0.1:
            kw["cond"] = float(rng.choice([10, 1e3, 1e4]))
        if prop in ("C08", "C10") and rng.random() < 0.3:
            kw.update(means=["array", "series"][rng.integers(2)], mscale=float(rng.choice([0.5, 2.0])))
        if prop == "C09" and i % 2:
            kw["kw"] = [{"max_iter": int(rng.integers(1, 9))}, {"time_limit": 1e-9}, {"max_iter": int(rng.integers(4, 7))}][i % 3]
            kw["K"] = int(rng.integers(2, 6))
        if prop in ("C09", "C08") and rng.random() < 0.1:
            kw["shock"] = float(rng.choice([10, 40]))
        if rng.random() < 0.05:
            kw["M"] = int(rng.integers(20, 45))
        if prop == "C11" and i % 8 == 0:
            kw.update(M=1 + i % 3, times=None, experts="")
        if prop not in ("C12", "C17") and i % 60 == 5:      # many assets and experts
            kw.update(n=int(rng.integers(10, 25)), K=int(rng.integers(6, 12)), M=int(rng.integers(5, 8)), experts="")
        if prop not in ("C12", "C17") and i % 120 == 7:     # a long window
            M = int(rng.integers(90, 140))
            kw.update(n=2, K=int(rng.integers(2, 4)), M=M, window=int(rng.integers(60, M - 5)), times=(M - int(rng.integers(0, 3)), M), timestype="list", experts="")
        if prop in ("C08", "C10", "C11") and i == 9:        # a very long window
            M = int(rng.integers(270, 330))
            kw.update(n=2, K=2, M=M, step=1, window=M - int(rng.integers(2, 6)), times=(M, M), timestype="list", experts="", same=None, kw=None)
        if prop == "C12" and i % 3 == 0:        # solver options that make some of the solves fail
            kw.update(alone=True, kw={"max_iter": int(rng.integers(5, 11))}, K=int(rng.integers(2, 6)), experts="", same=None)
        if i % 40 == 11 and prop != "C17":       # the README's experts and data
            kw.update(experts="pandas", M=int(rng.integers(20, 40)), n=int(rng.integers(2, 6)), means=None, times=None, same=None)
        if i % 12 == 4:                          # assets of very different volatility
            kw["spread"] = float([2, 4, 3, 4.5][i // 12 % 4])
            kw.setdefault("n", int(rng.integers(2, 5)))
        if prop in ("C08", "C10", "C11") and i % 10 == 6:       # missing returns
            kw.update(gaps=[0.05, 0.3][i // 10 % 2], experts="")
        c = f.rand_case(rng, **kw)
        if c.get("kw") is None and prop in ("C09", "C12", "C11") and rng.random() < (0.3 if prop != "C11" else 0.1):
            W = min(c["window"] or c["M"] - 1, c["M"] - 1)
            c["fails"] = {str(q): ["error", "infeasible", "iterlimit", "timelimit"][rng.integers(4)] for q in range(W + 1, c["M"] + 1) if rng.random() < 0.35}
        if c.get("kw") is None and rng.random() < 0.05:
            c["kw"] = {"solver": ["CLARABEL", "SCS"][0]}
        cases.append(c)
    for c in cases:
        if "how" not in c and rng.random() < (0.3 if prop == "C11" else 0.15) and c["M"] < 60:
            c["used"] = int(rng.integers(1, c["M"] + 1))
    if prop == "C11":
        for c in cases:
            c["full"] = not c.get("fails")
    if prop == "C18":
        for i in range(600 if thorough else 210):
            how = f.REJECTS[i % len(f.REJECTS)]
            means = ["array", "series"][rng.integers(2)] if how.startswith("mean") else [None, "array", "series"][rng.integers(3)]
            K = int(rng.integers(1 if how.startswith(("mean", "times")) else 2, 5))
            idx = ["days", "range", "irregular", "unsorted", "newest", "tz"][rng.integers(6)]
            cases.append(f.rand_case(rng, how=how, means=means, K=K, M=int(rng.integers(6, 12)), tail=2, index=idx, window=[None, 1, 2, 3][rng.integers(4)], times=None))
        for i in range(300 if thorough else 60):   # the same, left consistent, is accepted
            cases.append(f.rand_case(rng, M=int(rng.integers(6, 12)), index=["days", "range", "irregular", "unsorted", "newest", "tz"][rng.integers(6)]))
    return cases


def relevant(prop):
    C = {"C08": {"gap", "raised", "missing", "surplus"},
         "C09": {"weight_count", "weight_keys", "negative", "sum", "finite", "result_of_failed_solve", "lost", "raised"},
         "C10": {"blend_cov", "blend_mean", "symmetric", "labels", "finite", "raised", "missing"},
         "C11": {"missing", "surplus", "stamp", "lost", "raised", "gap", "differs", "blend_cov", "blend_mean", "labels", "finite"},
         "C12": {"missing", "surplus", "stamp", "lost", "result_of_failed_solve", "raised", "differs"},
         "C17": {"agreement", "single_weight", "raised", "missing", "lost", "finite", "sum"},
         "C18": {"result_from_rejected", "accepted", "raised"}}[prop]

    def rel(run, clause):
        return clause in C
    return rel


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    m = ck.model("MCCombine", consts={"MaxM": 9 if ck.thorough else 7}, invariants=INV)
    if ck.thorough and ck.prop in ("C08", "C11"):
        ck.induct("ApaCombine")
    behs = f.mc_behaviours(m)
    runs = pmap(f.execute, scenarios(ck.prop, behs, rng, ck.thorough))
    ck.validate("TraceCombine", runs, relevant(ck.prop), shards=8 if ck.thorough else 4)
    ck.extra["solves_watched"] = sum(len(r.get("note", ())) for r in runs)
    ck.extra["failed_solves"] = sum(1 for r in runs for n in r.get("note", ()) if n and n[0] not in f.GOOD)
    ck.extra["explanation"] = ("every grid length, window, requested run and set of failing solves up to the bound in the model; model behaviours and seeded random problems "
                               "(1-5 experts, 1-6 assets, means, gaps in the grid, index and label types, identical experts, injected and natural solver failures) replayed into the "
                               "real solve() stream, every item judged by the online machine with exact arithmetic (optimality by a duality gap, no second optimiser)")
