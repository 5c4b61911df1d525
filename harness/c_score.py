"""Checks C26-C28 and C33."""
import numpy as np

import f_score as f
from vlib import pmap

INV = {"C26": ["C26_Pairs", "C26_Units", "C26_Independent"], "C27": ["C27_Window", "C27_Incremental", "C27_PSD"], "C28": ["C28_Explicit", "C28_PSD", "C28_Clipped", "C28_Realized"]}


def scenarios(prop, rng, thorough):
    X = 15 if thorough else 1
    cases = []
    if prop == "C26":
        for i in range(120 * X):
            cases.append(f.rand_case(rng, "ll"))
        for i in range(3 * X):          # many assets, daily returns
            cases.append(f.rand_case(rng, "ll", n=int(rng.integers(70, 110)), T=2, scale=1e-2))
            cases.append(f.rand_case(rng, "dated", form=["cov", "low", "rank"][i % 3], n=80, r=3, T=3, scale=1e-3))
        for i in range(8 * X):          # assets in very different units
            cases.append(f.rand_case(rng, "ll" if i % 2 else "dated", n=int(rng.integers(2, 5)), spread=5.0, r=1, form=["cov", "rank", "low"][i // 2 % 3]))
        for i in range(240 * X):
            cases.append(f.rand_case(rng, "dated", form=["cov", "rank", "low", "em"][i % 4]))
            if cases[-1]["form"] == "em":     # factor models with positive remainder
                cases[-1].update(n=int(rng.integers(4, 7)), r=int(rng.integers(1, 3)))
    elif prop == "C27":
        for i in range(400 * X):
            cases.append(f.rand_case(rng, "roll"))
        for i in range(4 * X):
            cases.append(f.rand_case(rng, "roll", T=300, n=3))
            cases.append(f.rand_case(rng, "roll", T=30, n=int(rng.integers(11, 20))))
            cases.append(f.rand_case(rng, "roll", T=300, n=2, memory=int(rng.integers(100, 290)), mp=[None, 50, 240][i % 3]))
    else:
        for i in range(300 * X):
            cases.append(f.rand_case(rng, ["smooth", "day"][i % 2]))
        for i in range(4 * X):
            cases.append(f.rand_case(rng, ["smooth", "day"][i % 2], n=int(rng.integers(11, 20))))
            cases.append(f.rand_case(rng, "smooth", n=1, T=int(rng.integers(200, 400))))
    return cases


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    if ck.prop in INV:
        ck.model("MCScores", consts={"Depth": 5 if ck.thorough else 3, "Vals": "{0, 1, 3}", "Memories": "{1, 2, 3, 9}" if ck.thorough else "{1, 2, 9}"}, invariants=INV[ck.prop])
    runs = pmap(f.execute, scenarios(ck.prop, rng, ck.thorough))
    ck.validate("TraceScores", runs, shards=8 if ck.thorough else 4)
