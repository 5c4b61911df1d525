"""Check C32."""
import numpy as np

import f_prec as f
from vlib import pmap


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    X = 15 if ck.thorough else 1
    ck.model("MCPrecision", consts={"Loads": '{"1", "-0.5"}', "Rests": '{"1", "0.3"}', "Steps": "2" if ck.thorough else "1"},
             invariants=["C32_Inverse", "C32_RoundTrip", "C32_Tangent", "C32_Descent", "C32_Likelihood", "C32_Gradient", "C32_Downhill"])
    cases = [f.rand_case(rng, "state") for _ in range(200 * X)]
    cases += [f.rand_case(rng, "grad") for _ in range(120 * X)]
    cases += [f.rand_case(rng, "state", scale=float([1e-3, 1e-4, 1e3][i % 3]), spread=float([0, 1.5][i % 2])) for i in range(60 * X)]
    cases += [f.rand_case(rng, "state", n=int(rng.integers(3, 9)), r=1 + i % 2, rest=float([2, 3.5][i % 2])) for i in range(40 * X)]     # next to nothing left unexplained for some
    cases += [f.rand_case(rng, "state", n=int(rng.integers(3, 9)), r=1 + i % 2, own=bool(i // 2 % 2), flat=False, tiny=[1e-5, 1e-6][i // 4 % 2]) for i in range(16 * X)]
    cases += [f.rand_case(rng, "state", n=30, r=4) for _ in range(2 * X)]
    for _ in range(40 * X):
        c = f.rand_case(rng, "state", two=False, iters=3, scale=1.0, flat=False)
        cases.append({**c, "n": 2 + c["n"] % 4, "r": 1 + c["r"] % 2})
    cases += [f.rand_case(rng, "state", two=True, iters=int(rng.integers(1, 4)), n=int(rng.integers(1, 6)), r=1 + i % 2, flat=bool(rng.random() < 0.1)) for i in range(40 * X)]
    for c in cases:
        c["r"] = min(c["r"], c["n"])
    runs = pmap(f.execute, cases)
    ck.validate("TracePrec", runs, shards=4)
    ck.extra["rule"] = "seeded random factor models (scales, zero factors, own and foreign targets), and up to three iterations of the convex-concave procedure (exact, and by gradient steps)"
