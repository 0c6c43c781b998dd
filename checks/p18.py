#!/usr/bin/env python3
"""P18: filters multiply each mode of each cell by its damping factor."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import SETS, box

def body(c):
    rng, t = c.rng, c.thorough
    sc = []
    def b(D, **kw):
        d = box(rng, D, "P", cells=[rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 5 if D == 2 else 3), advection=rng.choice(["SEDG", "SEDG", "central"]),
                stencil=rng.choice(["D2Q9", "D2Q19V"] if D == 2 else ["D3Q15", "D3Q19"]))
        d["filter"] = rng.choice(["exp", "exp", "new"])
        d["alpha"] = rng.choice([0, .3, 10, 36, round(rng.uniform(.1, 5), 3)])
        d["s"] = rng.choice([1, 2, 3.5, 20])
        top = d["order"] * D if rng.random() < .4 else d["order"]
        d["bysum"] = top != d["order"] or rng.random() < .2
        d["Nc"] = rng.randint(0, top + 1)
        d["interval"] = rng.choice([1, 1, 2, 3, 7])
        d["at"] = sorted({0, d["interval"], rng.randint(1, 12)})
        d.update(kw)
        return d
    for D, n in ((2, 220 if t else 20), (3, 60 if t else 9)):
        for i in range(n):
            sc.append(b(D))
            if i % 3 == 0:
                sc.append(b(D, values="flat"))
            if i % 3 == 1:
                sc.append(b(D, stretch=round(rng.uniform(.2, .8), 3)))
            if i % 4 == 2: # several populations and a whole run
                sc.append(b(D, stencil=rng.choice(["D2Q9"] if D == 2 else ["D3Q15", "D3Q19", "D3Q27"]), at=[0], run=True, order=2, scaling=1, field="trig", alpha=rng.choice([.1, 1]), s=2, Nc=1, bysum=False, interval=rng.choice([1, 2])))
            if i % 4 == 3:
                sc.append(b(D, advection="SL", values="flat", at=[0], order=rng.randint(1, 3)))
    sc.append(b(2, advection="SL", values="rough", filter="exp", alpha=10, s=2, Nc=1, bysum=False, interval=1, at=[0], order=2, cells=[3, 3]))
    for i in range(24 if t else 4): # with energy transport both sets of populations are filtered
        D = 3 if t and i % 6 == 5 else 2
        d = b(D, stencil="D3Q45" if D == 3 else rng.choice(["D2Q25H", "D2Q19V", "D2Q19H"]), gas=True, collision="BGK_STANDARD", equilibrium="QUARTIC_EQUILIBRIUM", advection=rng.choice(["SEDG", "central"]), order=rng.randint(1, 3 if D == 2 else 1))
        if D == 3:
            d["cells"] = [1, 1, 1]
        if i % 2:
            d.update(run=True, at=[0], scaling=1, field="trig", alpha=1, s=2, Nc=1, bysum=False, interval=rng.choice([1, 2]), advection="SL", values="flat")
        sc.append(d)
    c.model("FilterModel", cfg=os.path.join(vlib.SPEC, "FilterDeep.cfg") if t else None, workers=8, must_cover=["Apply"], min_states=1000)
    exe = c.build("h_filter")
    for s in sc:
        if s.get("run"):
            s["steps"] = 3
    c.sample(sc[0])
    c.conform(exe, "FilterTrace", sc, what="filter", mem="3g")
    par = [b(D, cells=[3] * D if D == 2 else [2] * D, refine=1 if D == 2 else 0, order=2) for D in (2, 2, 2, 3) for _ in range(6 if t else 2)]
    for np in (2, 3):
        c.conform(exe, "FilterTrace", par[np - 2::2], what="filter on %d processes" % np, np=np, groups=2, selftest=False, mem="3g")

vlib.main("P18", body)
