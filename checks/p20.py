#!/usr/bin/env python3
"""P20: a simulation starts from the prescribed flow."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import box
from collision import ISO

def body(c):
    rng, t = c.rng, c.thorough
    sc = []
    def b(D, **kw):
        s, scheme, eq = rng.choice([x for x in ISO if x[0].startswith("D%d" % D)])
        d = box(rng, D, "PW", stencil=s, collision=scheme, equilibrium=eq, cells=[rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 5 if D == 2 else 2),
                advection=rng.choice(["SL", "SL", "SEDG"]), field=rng.choice(["poly", "poly", "trig", "const"]), rho=round(rng.uniform(.8, 1.3), 3),
                u=[round(rng.uniform(-.1, .1), 4) for _ in range(D)], nu=round(10 ** rng.uniform(-3, 0), 5), points=20 if D == 2 else 10)
        d.pop("again", None)
        d["degree"] = rng.randint(1, d["order"])
        if s in ("D3Q45", "D3Q77", "D3V27") and D == 3:
            d["order"] = d["degree"] = 1
        d.update(kw)
        if d["advection"] == "SEDG" and D == 2 and d["order"] > 3:
            d["cells"] = [1, 2]
        return d
    def shape(D):
        r = rng.random()
        return dict(stretch=round(rng.uniform(.2, .8), 3)) if r < .3 else dict(distort=round(rng.uniform(.03, .09), 3), cells=[2] * D, order=2, degree=rng.randint(1, 2), tol="1e-7") if r < .45 and D == 2 else {}
    for D, n in ((2, 180 if t else 18), (3, 60 if t else 8)):
        for i in range(n):
            sc.append(b(D, **shape(D)))
            g = dict(init="GRADIENTS", field="poly", equilibrium="BGK_EQUILIBRIUM", collision="BGK_STANDARD", stencil=rng.choice(["D2Q9"] if D == 2 else ["D3Q15", "D3Q19", "D3Q27", "D3Q13"]))
            g.update(shape(D))
            sc.append(b(D, **g))
            if i % 2 == 0:
                sc.append(b(D, init="ITERATIVE", initsteps=rng.randint(1, 6), kind="P" * 2 * D, field=rng.choice(["const", "trig"]), **({} if D == 2 else dict(stencil="D3Q19", collision="BGK_STANDARD", equilibrium="BGK_EQUILIBRIUM", scaling=round(rng.uniform(1.5, 6), 3)))))
            if i % 3 == 0:
                sc.append(b(D, rescale=True, add=rng.random() < .5))
            if i % 4 == 1:
                sc.append(b(D, advection="SL", refine=1 if D == 2 else 0, local=1, cells=[rng.randint(2, 3)] * D if D == 2 else [2] * D, order=rng.randint(1, 2), degree=1))
    for i in range(8 if t else 3): # every node, also those that many cells share
        sc.append(b(3, init="GRADIENTS", field="poly", equilibrium="BGK_EQUILIBRIUM", collision="BGK_STANDARD", stencil=rng.choice(["D3Q15", "D3Q19", "D3Q27"]), cells=[2, 2, 2], order=1, degree=1, points=64, advection="SL"))
        sc.append(b(2, init="GRADIENTS", field="poly", equilibrium="BGK_EQUILIBRIUM", collision="BGK_STANDARD", stencil="D2Q9", cells=[2, 2], order=2, degree=2, points=64, advection="SL"))
    exe = c.build("h_init")
    c.sample(sc[0])
    c.conform(exe, "StartTrace", sc, what="start", mem="3g")
    par = [b(D, cells=[3] * D if D == 2 else [2] * D, refine=1 if D == 2 else 0, order=2, degree=2, init=i, field="poly" if i == "GRADIENTS" else "trig", kind="PP" * D, initsteps=3,
             collision="BGK_STANDARD", equilibrium="BGK_EQUILIBRIUM", stencil="D2Q9" if D == 2 else "D3Q19") for D in (2, 2, 3) for i in ("EQUILIBRIUM", "GRADIENTS", "ITERATIVE") for _ in range(4 if t else 1)]
    for np in (2, 3):
        c.conform(exe, "StartTrace", par if t else par[np - 2::2], what="start on %d processes" % np, np=np, groups=2, selftest=False, mem="3g")

vlib.main("P20", body)
