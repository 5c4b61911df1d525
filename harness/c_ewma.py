"""Checks C01-C06."""
import numpy as np

import f_ewma as f
from vlib import pmap

MISS = ["nan", "late", "late+spike", "dead", "start+nan", "delist", "gapday+late", "nan+zero+tiny", "dead+late", "start"]
PLAIN = ["plain", "spike", "spike+tiny", "zero", "tiny"]
INV = {
    "C01": ["C01_Explicit", "C01_Between", "C16_Units"],
    "C02": ["C02_NeverStuck"],
    "C03": ["C03_Shape", "C15_Order"],
    "C04": ["C04_ZeroMean", "C03_Shape"],
    "C05": ["C05_Schedule", "C05_Shown"],
    "C06": ["C06_NaNIsZero", "C06_DeadAsset", "C06_HoleIsOwn"],
}
WHICH = {"C01": "{1, 2, 5}", "C02": "{3, 6}", "C03": "{1, 2, 3, 4}", "C04": "{4, 6}", "C05": "{1, 2, 3}", "C06": "{1, 2, 3, 5}"}
PRINT = {"C01": 1, "C02": 3, "C03": 2, "C04": 4, "C05": 2, "C06": 1}


def scenarios(prop, behs, rng, thorough):
    """cases replayed into the code: the model's class sequences, then seeded random ones"""
    cases = []
    N = 3000 if thorough else 420
    big = 30 if thorough else 4
    nb = len(behs) if thorough else min(len(behs), 500)
    pick = [behs[i] for i in rng.permutation(len(behs))[:nb]]

    def clip():
        return float(rng.choice(f.CLIPS))

    def kw_for(kind, i):
        kw = {}
        if prop == "C02" or rng.random() < 0.3:
            kw["clip"] = clip()
        if prop == "C02" and rng.random() < 0.1:
            kw["clip"] = [None, 0, 0.0][i % 3] if kind != "clip" else None
            kw["clip"] = None
        if prop == "C04" or rng.random() < 0.3:
            kw["mean"] = bool(rng.random() < 0.85) if prop == "C04" else True
            if rng.random() < 0.5:
                kw["hm1"] = float(rng.choice([1, 4, 13, 40]))
            if rng.random() < 0.5:
                kw["hm2"] = float(rng.choice([1, 3, 9, 50]))
        if rng.random() < (0.3 if prop == "C06" else 0.1):
            kw["nan0"] = False
        return kw

    kinds = {"C01": ["vol", "vol", "center", "iewma"], "C02": ["vol", "vol", "clip", "iewma", "iewma"], "C03": ["iewma"],
             "C04": ["iewma", "iewma", "center"], "C05": ["iewma"], "C06": ["iewma", "iewma", "vol"]}[prop]
    prof = {"C01": PLAIN + MISS[:5], "C02": ["spike", "spike+late", "spike+nan", "spike+tiny", "start+spike", "plain", "spike+dead"], "C03": PLAIN + MISS,
            "C04": PLAIN + MISS, "C05": PLAIN + MISS + ["start", "start", "dead+start"], "C06": MISS}[prop]
    for i, b in enumerate(pick):
        kind = kinds[i % len(kinds)]
        kw = kw_for(kind, i)
        kw.setdefault("mpv", int(rng.integers(0, 3)))
        kw.setdefault("mpc", int(rng.integers(0, 3)))
        cases.append(f.from_classes(kind, b, rng, **kw))
    for i in range(N):
        kind = kinds[i % len(kinds)]
        cases.append(f.rand_case(kind, rng, profiles=prof, **kw_for(kind, i)))
    for i in range(N // 12):       # histories about as long as the warm-ups
        kind = kinds[i % len(kinds)]
        cases.append(f.rand_case(kind, rng, T=int(rng.integers(1, 5)), profiles=prof, **kw_for(kind, i)))
    for i in range(big):
        kind = kinds[i % len(kinds)]
        cases.append(f.rand_case(kind, rng, T=int(rng.integers(120, 300)), n=int(rng.integers(2, 9)), profiles=prof, **kw_for(kind, i)))
    if prop == "C02":                      # wide bounds, which only long half lives let through
        for i in range(120 if thorough else 12):
            cases.append(f.rand_case(kinds[i % len(kinds)], rng, T=int(rng.integers(30, 70)), profiles=["spike", "spike+late"], clip=float(rng.choice([5.5, 8, 12, 15])),
                                     hv=float(rng.choice([40, 63, 125, 250])), mpv=int(rng.integers(2, 12)), mean=bool(i % 5 == 0)))
    if prop != "C02":                      # many assets; long histories
        for i in range(20 if thorough else 2):
            kind = kinds[(i + len(kinds) - 1) % len(kinds)]
            cases.append(f.rand_case(kind, rng, T=int(rng.integers(14, 30)), n=int(rng.integers(11, 33)), profiles=prof, **{**kw_for(kind, i), "mpv": 2, "mpc": 4}))
            if prop not in ("C01",):
                cases.append(f.rand_case("iewma", rng, T=int(rng.integers(400, 700)), n=2, profiles=prof, **kw_for("iewma", i)))
    if prop in ("C01", "C02", "C06"):       # weights keep halving, however long the history
        for i in range(4 if thorough else 2):
            cases.append(f.rand_case("vol", rng, T=int(rng.integers(1300, 1700)), n=1, profiles=PLAIN, hv=float([400, 20000, 900, 6000][i]), mpv=int(rng.integers(1, 30)),
                                     clip=clip() if prop == "C02" else None))
    for i in range(big):   # an asset idle for many half-lives
        kind = kinds[i % len(kinds)]
        c = f.rand_case(kind, rng, T=int(rng.integers(45, 90)), n=int(rng.integers(2, 4)), profiles=["idle"], **kw_for(kind, i))
        c.update(hv=float(rng.choice([0.8, 1, 2])), hc=float(rng.choice([0.7, 1, 1.5])), drift=0)
        cases.append(c)
    if prop in ("C01", "C03", "C05"):       # half lives far below one
        for i in range(60 if thorough else 8):
            kind = kinds[i % len(kinds)]
            cases.append(f.rand_case(kind, rng, T=int(rng.integers(4, 20)), profiles=PLAIN, **{**kw_for(kind, i), "hv": [0.05, 0.15, 0.25][i % 3], "hc": [0.2, 0.1][i % 2], "mean": False, "clip": None}))
    for i in range(36 if thorough else 6):   # the histories the README, the book and the experiments work on
        kind = kinds[i % len(kinds)]
        src = ["ff5", "stocks", "sp25"][i % 3]
        cases.append(f.rand_case(kind, rng, T=int(rng.integers(60, 250)), n=[5, 8, 6][i % 3], real=src, index="days", labels="str", **kw_for(kind, i)))
    for i in range(10):   # default warm-ups, positional use
        kind = kinds[i % len(kinds)]
        d = dict(mpv=20, mpc=20) if kind == "iewma" else dict(mpv=0)
        c = f.rand_case(kind, rng, T=int(rng.integers(30, 60)), profiles=prof, **d)
        c.update(clip=None, mean=False, defaults=True, **d)
        c.pop("hm1", None), c.pop("hm2", None), c.pop("nan0", None)
        if kind != "center":
            cases.append(c)
    return cases


def relevant(prop):
    def rel(run, clause):
        kind, case = run["kind"], run["case"]
        crash = clause == "raised"
        if prop == "C01":
            return kind in ("vol", "center") and not run["p"].get("clip") or clause == "vola" and not run["p"].get("clip")
        if prop == "C02":
            return bool(run["p"].get("clip")) or kind == "clip" or kind == "vol"
        if prop == "C03":
            return crash or clause in ("cov", "cov_diag", "symmetric", "cov_labels", "vola_labels", "vola", "missing_pattern")
        if prop == "C04":
            return crash or kind == "center" or clause in ("mean", "mean_labels") or run["p"]["mean"] and clause in ("cov", "vola", "missing", "extra")
        if prop == "C05":
            return clause in ("missing", "extra", "order", "stamp", "raised")
        return True
    return rel


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    deep = 4 if ck.thorough and ck.prop not in ("C03",) else 3
    cl = '{"Z", "N", "S", "B"}'
    m = ck.model("MCIewma", consts={"Depth": deep, "N": 2, "Classes": cl, "PrintFor": PRINT[ck.prop], "Which": WHICH[ck.prop]}, invariants=INV[ck.prop])
    behs = f.mc_classes(m)
    if ck.thorough and ck.prop == "C05":
        ck.induct("ApaIewma")
    if ck.thorough:
        m3 = ck.model("MCIewma", consts={"Depth": 3, "N": 3, "Classes": '{"Z", "S", "N"}' if ck.prop in ("C05", "C06") else '{"Z", "S", "B"}',
                                        "PrintFor": PRINT[ck.prop], "Which": WHICH[ck.prop]}, invariants=INV[ck.prop])
        b3 = f.mc_classes(m3)
        behs = [behs[i] for i in rng.permutation(len(behs))[:6000]] + [b3[i] for i in rng.permutation(len(b3))[:4000]]
    cases = scenarios(ck.prop, behs, rng, ck.thorough)
    runs = pmap(f.execute, cases)
    ck.validate("TraceEwma", runs, relevant(ck.prop), shards=2)
    ck.extra["rule"] = ("class sequences enumerated by MCIewma and seeded random scenarios (zero, missing, spike, tiny, late, dead, delisted assets; half-lives, "
                        "warm-ups, clip, means, label and index types), each replayed into the code and checked row by row")
    ck.extra["exhaustive_model_depth"] = deep
