"""Checks C19-C21."""
import numpy as np

import f_reg as f
from vlib import pmap

INV = {"C19": ["C19_Witness", "C19_Refused", "C19_Diag", "C19_PSD", "C19_Full", "C19_Remainder"], "C20": ["C19_Witness", "C20_Lead", "C20_OnlyLead", "C20_OnlyProjector"],
       "C21": ["C21_Positive", "C21_Up", "C21_Fixed", "C21_Variances"]}
PRE = {"C19": ("full_", "formats"), "C20": ("low_", "formats"), "C21": ("em_",)}


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    big = ck.thorough
    ck.model("MCRegularize", consts={"Steps": 4 if big else 2, "FV": '{"-2", "-1", "0", "1", "3"}' if big else '{"-1", "0", "2"}', "DV": "{1, 2, 5}" if big else "{1, 3}",
                                     "SV": '{"-2", "0", "1", "3"}' if big else '{"0", "1", "2"}'}, invariants=INV[ck.prop])
    cases = []
    if ck.prop in ("C19", "C20"):
        for shape in f.SHAPES[1:]:       # every shape, size and rank
            for n in range(1, 8 if big else 6):
                for r in range(1, n + 1):
                    cases.append(f.rand_case(rng, "reg", shape=shape, n=n, r=r, T=1 if r > 1 else 3))
        cases += [f.rand_case(rng, "reg") for _ in range(3000 if big else 130)]
        cases += [f.rand_case(rng, "reg", n=n, r=int(rng.integers(1, n + 1)), T=1, shape=["full", "factor"][i % 2]) for i, n in enumerate(rng.integers(12, 32, size=30 if big else 3).tolist())]
    else:
        for start in ("reg", "rand", "exact", "zero"):
            for n in range(1, 8 if big else 6):
                for r in range(1, n + 1):
                    cases.append(f.rand_case(rng, "em", start=start, n=n, r=r, T=1 if r > 1 else 3))
        cases += [f.rand_case(rng, "em") for _ in range(2500 if big else 120)]
        cases += [f.rand_case(rng, "em", n=n, r=int(rng.integers(1, 6)), T=1, start=["reg", "rand"][i % 2], shape="full") for i, n in enumerate(rng.integers(12, 24, size=30 if big else 3).tolist())]
    runs = pmap(f.execute, cases)

    def relevant(run, clause):
        if clause == "WITNESS":
            raise RuntimeError("the eigen-decomposition offered by the harness was refused: %s" % run["case"])
        return clause.startswith(PRE[ck.prop])
    ck.validate("TraceReg", runs, relevant, shards=8 if big else 4)
