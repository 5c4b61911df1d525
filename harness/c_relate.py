"""Checks C07, C13-C16."""
import numpy as np

import f_combine as fc
import f_ewma as fe
import f_relate as f
from vlib import pmap

MISS = ["plain", "spike", "zero", "nan", "late", "late+spike", "start+nan", "delist", "gapday+late"]
HOW = ["truncate", "noise", "huge", "zero", "nan", "one", "reverse", "drop"]


def ewma_pair(rng, i, rel, **kw):
    kind = ["iewma", "iewma", "vol", "center"][i % 4]
    if rng.random() < 0.4:
        kw["clip"] = float(rng.choice(fe.CLIPS))
    if rng.random() < 0.4:
        kw["mean"] = True
        if rng.random() < 0.5:
            kw["hm1"], kw["hm2"] = float(rng.choice([1, 4, 13])), float(rng.choice([2, 9, 30]))
    if rng.random() < 0.15:
        kw["nan0"] = False
    size = {"T": int(rng.integers(150, 300))} if i % 80 == 41 else {"n": int(rng.integers(11, 30)), "T": int(rng.integers(12, 25))} if i % 80 == 13 else {"T": int(rng.integers(4, 30))}
    c = fe.rand_case(kind, rng, profiles=MISS, **size, **kw)
    c.update(run="pair", rel=rel)
    return c


def combine_pair(rng, i, rel, **kw):
    M = int(rng.integers(8, 15))
    c = fc.rand_case(rng, M=M, K=int(rng.choice([2, 2, 3, 3, 4] if i % 40 != 11 else [7, 12])), n=int(rng.integers(2, 5) if i % 40 != 21 else rng.integers(11, 16)), window=int(rng.integers(3, 6)), times=None, bias=0.8,
                     strength=float(rng.choice([0.6, 1.0])), names=["pair", "int", "rev", "expert"][rng.integers(4)], tail=0, **kw)
    c.update(run="pair", rel=rel, kind="combine")
    if rng.random() < 0.25:
        c["via"] = {"pairs": [[(2, 5), (8, 30)], [(3, 6), (10, 10), (20, 60)], [(5, 5)]][rng.integers(3)],
                    "kw": dict(min_periods_vola=3, min_periods_cov=c["n"] + int(rng.integers(3, 5)), mean=bool(rng.integers(2)), clip_at=[None, 2.5][rng.integers(2)])}
        c.update(M=int(rng.integers(18, 30)), step=1, lead=0, window=int(rng.integers(5, 9)))
        if rel == "order":
            c["window"] = 8
    return c


def scenarios(prop, rng, thorough, scheds):
    X = (10 if prop == "C14" else 12) if thorough else 1
    cases = []
    if prop == "C07":
        for i in range(260 * X):
            c = ewma_pair(rng, i, "cut", how=HOW[i % len(HOW)])
            c["cut"] = int(rng.integers(1, c["T"]))
            cases.append(c)
        for i in range(110 * X):
            c = combine_pair(rng, i, "cut", how=["truncate", "noise", "truncate", "drop", "huge", "one"][i % 6], what=["both", "returns", "experts"][rng.integers(3)])
            M = c["M"]
            c["cut"] = int(rng.integers(min(c["window"] + 2, M - 1), M))
            if c.get("via"):
                M = c["M"]
                c["cut"] = int(rng.integers(M - 4, M))
                c["window"] = max(1, min(c["window"], c["cut"] - 13))      # the effective window is the same in both runs
            cases.append(c)
    elif prop in ("C15", "C16"):
        for i in range(200 * X):
            rel = ["order", "rename"][i % 3 // 2] if prop == "C15" else "units"
            c = ewma_pair(rng, i, rel, index2=fe.IDX[rng.integers(len(fe.IDX))], labels2=fe.LABS[rng.integers(len(fe.LABS))],
                          c=float(rng.choice([100, 0.01, 2.0, 1e-4, 7.3, 1e5])), single=bool(rng.random() < 0.5))
            cases.append(c)
        for i in range(120 * X):
            rel = ["order", "rename"][i % 3 // 2] if prop == "C15" else "units"
            c = combine_pair(rng, i, rel, index2=fe.IDX[rng.integers(len(fe.IDX))], labels2=fe.LABS[rng.integers(len(fe.LABS))], rename=bool(rng.integers(2)),
                             c=float(rng.choice([100, 0.01, 2.0, 1e-3, 7.3])))
            cases.append(c)
    elif prop == "C13":
        for i in range(330 * X):
            what = ["combine", "combine", "combine", "from_ewmas", "iewma", "frames", "regularize", "em"][i % 8]
            c = {"run": "iter", "what": what, "seed": int(rng.integers(1 << 31)), "sched": scheds[int(rng.integers(len(scheds)))]}
            if what in ("combine", "from_ewmas"):
                d = fc.rand_case(rng, M=int(rng.integers(8, 12)) if what == "combine" else int(rng.integers(14, 18)), K=int(rng.integers(1, 4)), n=int(rng.integers(1, 4)), times=None,
                                 bias=0.8, step=1, tail=0, lead=0, index=["days", "range", "str", "irregular", "unsorted", "newest", "tz"][rng.integers(7)], names="expert")
                d.update(c, lens=[2, 3, 1], full=bool(rng.integers(2)), mean=bool(rng.integers(2)), clip=[None, 3.0][rng.integers(2)], cap=12)
                cases.append(d)
            else:
                prof = ["plain", "spike", "late", "nan", "zero"] if what in ("iewma", "frames") else ["plain"]
                c["e"] = fe.rand_case("iewma", rng, T=int(rng.integers(10, 14)), n=int(rng.integers(2, 5)), profiles=prof, mpv=2, mpc=5, clip=[None, 2.5][rng.integers(2)],
                                      mean=bool(rng.integers(2)))
                c["cap"] = 12
                cases.append(c)
    elif prop == "C14":
        P = [[(2, 5), (8, 30)], [(3, 6), (10, 10), (20, 60)], [(5, 5)], [(4, 2), (2, 4)], [(10, 21), (21, 63), (63, 125), (125, 250)], [(1.5, 3), (6, 2.5)], [(9, 3), (3, 9), (1, 1)]]
        for i in range(84 * X):
            n = int(rng.integers(1, 4))
            c = fe.rand_case("iewma", rng, T=int(rng.integers(12, 26)), n=n, profiles=["plain", "spike", "spike+tiny"], mpv=int(rng.integers(1, 5)), mpc=int(rng.integers(n + 2, n + 5)),
                             clip=[None, None, 2.5, 1.2][rng.integers(4)], mean=bool(rng.integers(2)))
            c["mpv"] = max(2, c["mpv"])
            if c["mean"]:
                c["mpc"] += 2
            c.update(run="system", pairs=P[rng.integers(len(P))], window=[None, 1, 2, 4, 6, 50][rng.integers(6)])
            cases.append(c)
        for i in range(12 * X):            # missing returns: they count as zero, for the experts and for their combination
            n = int(rng.integers(1, 4))
            c = fe.rand_case("iewma", rng, T=int(rng.integers(16, 26)), n=n, profiles=["nan", "nan+spike", "nan+gapday"], mpv=4, mpc=n + 6, mean=bool(rng.integers(2)), clip=[None, 2.5][rng.integers(2)])
            c.update(run="system", pairs=P[rng.integers(len(P))], window=[None, 1, 3, 5][rng.integers(4)])
            cases.append(c)
        for i in range(4 * X):
            c = fe.rand_case("iewma", rng, T=int(rng.integers(44, 50)), n=2, profiles=["plain", "spike"], mpv=20, mpc=20)
            c.update(run="system", pairs=P[rng.integers(4)], window=int(rng.integers(1, 6)), defaults=True)
            cases.append(c)
        for i in range(2 * X):             # as in the README (five factors) and in the book (three stocks)
            n = [5, 3][i % 2]
            c = fe.rand_case("iewma", rng, T=[44, 52][i % 2], n=n, real=["ff5", "stocks"][i % 2], index="days", labels="str", **[dict(mpv=n, mpc=3 * n), dict(mpv=20, mpc=20, clip=4.2, mean=True)][i % 2])
            c.update(run="system", pairs=[[(10, 21), (21, 63), (63, 125)], [(10, 10), (21, 21), (21, 63)]][i % 2], window=10)
            cases.append(c)
    return cases


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    scheds = []
    if ck.prop == "C13":
        ops = 7 if ck.thorough else 6
        flags = [("FALSE", "FALSE"), ("TRUE", "FALSE"), ("FALSE", "TRUE")]
        for sh, sp in flags:
            m = ck.model("MCIterators", consts={"Streams": 2, "Ops": ops, "L1": 2, "L2": 3, "L3": 1, "Shared": sh, "SplitPull": sp, "Emit": "TRUE" if (sh, sp) == flags[0] else "FALSE"},
                         invariants=["C13_Own"])
            if (sh, sp) == flags[0]:
                scheds += fc.mc_behaviours(m)
        m = ck.model("MCIterators", consts={"Streams": 3, "Ops": ops - 1, "L1": 2, "L2": 1, "L3": 2, "Shared": "FALSE", "SplitPull": "FALSE", "Emit": "TRUE"}, invariants=["C13_Own"])
        scheds += fc.mc_behaviours(m)
        scheds = [s for s in scheds if sum(o in ("pull", "fail") for o, _ in s) >= 2]
        # longer ones, glued from the enumerated prefixes
        def glue(a, b):
            return a + b
        scheds += [glue(scheds[int(rng.integers(len(scheds)))], [o for o in scheds[int(rng.integers(len(scheds)))]]) for _ in range(2000)]
    elif ck.prop == "C15":
        ck.model("MCIewma", consts={"Depth": 3, "N": 2, "Classes": '{"Z", "N", "S", "B"}', "PrintFor": 1, "Which": "{1, 2, 3, 4, 5, 6}"}, invariants=["C15_Order"])
    elif ck.prop == "C16":
        ck.model("MCIewma", consts={"Depth": 3, "N": 2, "Classes": '{"Z", "N", "S", "B"}', "PrintFor": 1, "Which": "{1, 2, 3, 4, 5, 6}"}, invariants=["C16_Units"])
    elif ck.prop == "C14":
        ck.model("MCCombine", consts={"MaxM": 6}, invariants=["C08_Window", "C10_Unlagged"])
    elif ck.prop == "C07":
        ck.model("MCCombine", consts={"MaxM": 6}, invariants=["C08_Window", "C11_Restriction"])
    runs = [r for r in pmap(f.execute, scenarios(ck.prop, rng, ck.thorough, scheds)) if r is not None]
    mod = {"C13": "TraceIter", "C14": "TraceSystem"}.get(ck.prop, "TraceRelate")
    ck.validate(mod, runs, shards=8 if ck.thorough or ck.prop == "C14" else 4)
