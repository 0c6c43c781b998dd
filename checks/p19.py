#!/usr/bin/env python3
"""P19: the discontinuous Galerkin operator differentiates exactly and conserves mass."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import SETS, box

def body(c):
    rng, t = c.rng, c.thorough
    sc = []
    for D, n in ((2, 200 if t else 16), (3, 45 if t else 9)):
        for i in range(n):
            s = SETS[D][i % len(SETS[D])]
            def b(**kw):
                d = box(rng, D, "P", stencil=s, order=rng.randint(1, 5 if D == 2 else 2))
                d["cells"] = [rng.randint(1, 3 if D == 2 else 2) for _ in range(D)]
                if D == 3 and s in ("D3Q45", "D3Q77"):
                    d["order"] = 1
                d.update(kw)
                return d
            def kind():
                return "".join(rng.choice("PW") * 2 for _ in range(D))
            sc.append(b(central=rng.random() < .3))
            if i % 2: # slow populations
                sc.append(b(scaling=round(10 ** rng.uniform(-4, -1), 6), tol="1e-9"))
            sc.append(b(kind=kind(), central=rng.random() < .3, walls=rng.choice(["const", "space"])))
            if D == 2 or i % 2:
                sc.append(b(kind=kind(), stretch=round(rng.uniform(.2, .8), 3), walls=rng.choice(["const", "space"]), refine=rng.randint(0, 1) if D == 2 else 0))
                sc.append(b(distort=round(rng.uniform(.03, .09), 3), cells=[rng.randint(2, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 3 if D == 2 else 2),
                            kind=kind(), central=rng.random() < .3, tol="1e-6"))
            u = [0] * D if i % 3 == 0 else [round(rng.uniform(-.1, .1), 4) for _ in range(D)]
            sc.append(b(kind=kind(), uniform=u, uwall=u, central=rng.random() < .3))
            if i % 4 == 0:
                sc.append(b(local=1, kind="W" * 2 * D, cells=[3] * D if D == 2 else [2] * D, order=1))
    exe = c.build("h_sedg")
    c.sample(sc[0])
    c.conform(exe, "SedgTrace", sc, what="operator", mem="3g")
    par = [box(rng, D, "PW", cells=[rng.randint(2, 3) if D == 2 else 2 for _ in range(D)], refine=1 if D == 2 else 0, order=rng.randint(1, 3 if D == 2 else 1),
               stencil=rng.choice(["D2Q9", "D2Q19V"] if D == 2 else ["D3Q15", "D3Q19"]), walls="space", central=rng.random() < .3) for D in (2, 2, 2, 3) for _ in range(6 if t else 2)]
    for np in (2, 3):
        c.conform(exe, "SedgTrace", par[np - 2::2], what="operator on %d processes" % np, np=np, groups=2, selftest=False, mem="3g")

vlib.main("P19", body)
