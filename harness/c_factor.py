"""Check C35."""
import numpy as np

import f_factor as f
from vlib import pmap


def check(ck):
    rng = np.random.default_rng([ck.seed, int(ck.prop[1:])])
    ck.model("MCFactor", consts={"MaxT": 60 if ck.thorough else 40, "Memories": "{1, 2, 5, 11, 12, 30}", "Freqs": "{1, 2, 3, 7, 20}"}, invariants=["C35_Schedule", "C35_Causal", "C35_Window"])
    if ck.thorough:
        ck.induct("ApaFactor")
    runs = pmap(f.execute, [f.rand_case(rng) for _ in range(600 if ck.thorough else 60)] +
                [f.rand_case(rng, n=int(rng.integers(8, 13)), k=4, memory=24, T=30) for _ in range(20 if ck.thorough else 2)] +
                [f.rand_case(rng, n=2 + i % 2, k=1, memory=250, freq=20, pairs=[[10, 21]], T=250 + int([62, 3, 95, 21][i % 4])) for i in range(8 if ck.thorough else 1)] +
                [f.rand_case(rng, n=int(rng.integers(11, 14)), k=11, memory=45, freq=2, T=49) for _ in range(8 if ck.thorough else 1)])
    ck.validate("TraceFactor", runs, shards=8)
