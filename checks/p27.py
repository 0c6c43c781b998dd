#!/usr/bin/env python3
"""P27: regularization replaces the populations by those of largest entropy with the same moments."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib
from p12 import box

FULL, TRACELESS = "PSEUDO_ENTROPY_MAXIMIZATION", "PSEUDO_ENTROPY_MAXIMIZATION_WITH_E"
WORKING = [("D2Q9", FULL), ("D2Q9", TRACELESS), ("D3Q19", FULL), ("D2Q9", "NO_REGULARIZATION")]

def one(rng, stencil, scheme, i, **kw):
    D = int(stencil[1])
    d = box(rng, D, stencil=stencil, scheme=scheme, cells=[rng.randint(2, 4 if D == 2 else 3) for _ in range(D)], refine=0, order=rng.randint(1, 4 if D == 2 else 2),
            field="trig", nu=round(10 ** rng.uniform(-4, -1), 6), signs=i % 3 == 2, steps=rng.randint(1, 4), advection="lax" if i % 2 else "SL", cfl=round(rng.uniform(.2, .8), 3))
    d.pop("again", None)
    d.pop("labels", None)
    d.update(kw)
    return d

def body(c):
    rng, t = c.rng, c.thorough
    sc = [one(rng, s, m, i) for i in range(40 if t else 7) for s, m in WORKING]
    # schemes that do not exist for the velocity set
    for s in ("D2Q9", "D2Q25H", "D3Q15", "D3Q19", "D3Q27"):
        for m in (FULL, TRACELESS, "ZERO_HIGH_ORDER_MOMENTS", "ENTROPY_MAXIMIZATION"):
            if (s, m) not in WORKING and (t or rng.random() < .5 or m == FULL):
                sc.append(one(rng, s, m, 0))
    exe = c.build("h_regular")
    c.sample(sc[0])
    c.conform(exe, "RegularTrace", sc, what="regularization", mem="2g", isolate=True)
    par = [one(rng, s, m, i, cells=[3] * int(s[1])) for s, m in WORKING[:3] for i in range(6 if t else 2)]
    c.conform(exe, "RegularTrace", par, what="regularization on 2 processes", np=2, groups=4, selftest=False, isolate=True)

if __name__ == "__main__":
    vlib.main("P27", body)
