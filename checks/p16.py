#!/usr/bin/env python3
"""P16: reported statistics are the quantities they name."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import box
from collision import ISO

def body(c):
    rng, t = c.rng, c.thorough
    sc = []
    def b(D, **kw):
        s, scheme, eq = rng.choice([x for x in ISO if x[0].startswith("D%d" % D) and (D == 2 or x[0] in ("D3Q15", "D3Q19", "D3Q27", "D3Q13"))])
        d = box(rng, D, "PW", stencil=s, collision=scheme, equilibrium=eq, cells=[rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 5 if D == 2 else 2),
                advection=rng.choice(["SL", "SL", "SEDG"]), field=rng.choice(["poly", "trig"]), rho=round(rng.uniform(.8, 1.3), 3), famp=round(rng.uniform(.01, .08), 3),
                u=[round(rng.uniform(-.1, .1), 4) for _ in range(D)], nu=round(10 ** rng.uniform(-2, 0), 5), populations=rng.random() < .4)
        d.pop("again", None)
        d.update(kw)
        if d["advection"] == "SEDG" and D == 2 and d["order"] > 3:
            d["cells"] = [1, 2]
        if d.get("planes") is True:
            d["planes"] = [d["origin"][0]]
        d.setdefault("degree", rng.randint(1, d["order"]))
        # the element formulas are exact for these degrees
        room = 2 * d["order"] - (2 if d.get("distort") else 1)
        if d["field"] == "poly":
            d["degree"] = min(d["degree"], d["order"], room // 2 + 1)
            d["poly"] = d["degree"] <= room and not d.get("steps")
            d["energy"] = 3 * d["degree"] <= room
        return d
    for D, n in ((2, 200 if t else 24), (3, 60 if t else 8)):
        for i in range(n):
            sc.append(b(D))
            sc.append(b(D, stretch=round(rng.uniform(.2, .8), 3)))
            if D == 2 or i % 3 == 0:
                sc.append(b(D, field="poly", degree=rng.randint(1, 2), distort=round(rng.uniform(.03, .09), 3), cells=[2] * D, order=rng.randint(2, 4) if D == 2 else 2, exact=True, populations=False, tol="1e-7"))
            if D == 2 and i % 3 == 0:
                sc.append(b(D, advection="SL", local=1, cells=[rng.randint(2, 3)] * D, order=rng.randint(1, 2)))
            # tables of runs
            if i % 2 == 0:
                T = rng.randint(1, 5)
                sc.append(b(D, field="trig", kind="P" * 2 * D, files=True, steps=rng.randint(3, 12), table=T, turb=True, order=rng.randint(1, 3) if D == 2 else 1, cells=[rng.randint(2, 3)] * D if D == 2 else [2] * D,
                            cfl=.4, u=[.05] * D, rho=1.0, **(dict(axis=rng.randrange(D)) if D == 2 or i % 4 else {})))
                d = sc[-1]
                if rng.random() < .7 and d.get("axis") is not None:
                    a = d["axis"]
                    lo = d["origin"][a] if d.get("origin") else 0
                    d["planes"] = [lo, lo + d["size"][a] / d["cells"][a]]
    for k in range(8 if t else 2): # changes between looks
        sc.append(b(2, field="trig", kind="PPPP", files=True, steps=rng.choice([250, 300, 220]), table=rng.choice([50, 25, 100, 40]), order=2, cells=[2, 2], cfl=.4, advection="SL", rho=1.0))
    for k in range(4 if t else 1): # in three dimensions
        sc.append(b(3, field="trig", kind="P" * 6, files=True, steps=rng.choice([210, 120]), table=rng.choice([50, 100]), order=1, cells=[2, 2, 2], cfl=.4, advection="SL", rho=1.0, stencil=rng.choice(["D3Q15", "D3Q19"]),
                    collision="BGK_STANDARD", equilibrium="BGK_EQUILIBRIUM", populations=False))
    for k in range(6 if t else 2): # averages in time
        D = 2 + k % 2
        sc.append(b(D, field="trig", kind="P" * 2 * D, files=True, steps=rng.randint(3, 7), table=2, order=1, cells=[2] * D, cfl=.4, rho=1.0, means=True, axis=0, planes=True, populations=False))
    gas = lambda D, **kw: b(D, gas=True, gamma=round(rng.uniform(1.2, 1.6), 3), T=round(rng.uniform(.7, 1.1), 3), tamp=round(rng.uniform(.5, 2), 2), rho=1.0, stencil="D3Q45" if D == 3 else rng.choice(["D2Q25H", "D2Q25H", "D2Q19V", "D2Q19H"]),
                            collision="BGK_STANDARD", equilibrium="QUARTIC_EQUILIBRIUM", field="trig", kind="P" * 2 * D, files=True, steps=rng.randint(3, 8), table=rng.randint(1, 3), order=rng.randint(1, 3) if D == 2 else 1,
                            cells=[rng.randint(2, 3)] * D if D == 2 else [2] * D, advection="SL", cfl=.4, populations=False, **kw)
    for k in range(40 if t else 6): # runs with energy transport
        D = 3 if k % 5 == 4 else 2
        sc.append(gas(D, turb=k % 2 == 1))
    exe = c.build("h_stats")
    c.sample(sc[0])
    c.conform(exe, "StatsTrace", sc, what="statistics", mem="3g")
    par = [b(D, field="trig", kind="PP" * D, files=True, steps=6, table=2, turb=True, order=2, cells=[4, 2] if D == 2 else [2] * D, rho=1.0, advection=a)
           for D, a in ((2, "SL"), (2, "SEDG"), (3, "SL")) for _ in range(4 if t else 1)]
    for d in par[::2]:
        d.update(axis=1, planes=[d["origin"][1] if d.get("origin") else 0])
    par.append(b(2, field="trig", kind="PPPP", files=True, steps=5, table=2, order=2, cells=[4, 2], rho=1.0, means=True, axis=0, planes=True, populations=False, advection="SL"))
    par.append(gas(2))
    for np in (2, 3):
        c.conform(exe, "StatsTrace", par, what="statistics on %d processes" % np, np=np, groups=3, selftest=False, mem="3g")

vlib.main("P16", body)
