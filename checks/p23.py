#!/usr/bin/env python3
"""P23: the time step follows from mesh, order, velocities and CFL number."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import SETS, box
from collision import ISO

ALL = {2: SETS[2] + ["D2Q777"], 3: SETS[3]}

def body(c):
    rng, t = c.rng, c.thorough
    sc = []
    for D, n in ((2, 40 if t else 6), (3, 20 if t else 3)):
        for s in ALL[D]:
            for _ in range(n):
                d = box(rng, D, "W", stencil=s, mode="mesh", cfl=round(10 ** rng.uniform(-2, 1), 4), nu=round(10 ** rng.uniform(-4, 1), 6), refine=rng.randint(0, 1), refinements=rng.randint(1, 2 if D == 2 else 1),
                        cells=[rng.randint(1, 3) for _ in range(D)], order=rng.randint(1, 9 if D == 2 else 6))
                r = rng.random()
                if r < .25:
                    d["distort"] = round(rng.uniform(.03, .09), 3)
                elif r < .4:
                    d["local"] = 1
                    d["cells"] = [2] * D
                d.pop("again", None)
                sc.append(d)
    for D, n in ((2, 60 if t else 12), (3, 20 if t else 3)):
        for i in range(n): # running simulations
            dg = rng.random() < .5
            s, scheme, eq = rng.choice([x for x in ISO if x[0].startswith("D%d" % D) and (D == 2 or x[0] in ("D3Q15", "D3Q19", "D3Q27"))])
            std = rng.random() < .7
            if std:
                s, scheme, eq = rng.choice(["D2Q9"] if D == 2 else ["D3Q15", "D3Q19", "D3Q27"]), "BGK_STANDARD", "BGK_EQUILIBRIUM"
            d = box(rng, D, "PW", stencil=s, collision=scheme, equilibrium=eq, relax_=std, advection="SEDG" if dg else "SL", steps=4, cells=[rng.randint(1, 2) for _ in range(D)], order=rng.randint(1, 3 if D == 2 else 1),
                    field="trig", waves=1, rho=1.0, u=[.03] * D, nu=round(10 ** rng.uniform(-2, 0), 5), cfl=round(rng.uniform(.1, .6), 3), points=12)
            if dg:
                d["integrator"] = rng.choice(["RUNGE_KUTTA_5STAGE", "EXPONENTIAL", "OTHER"])
                if d["integrator"] == "OTHER":
                    d["deal"] = rng.choice(["FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER"])
                if i % 2:
                    d.update(integrator="OTHER", deal=rng.choice(["HEUN_EULER", "BOGACKI_SHAMPINE", "FEHLBERG", "CASH_KARP", "DOPRI"]), embedded=1, reftol=10 ** rng.uniform(-7, -4), coarsetol=10 ** rng.uniform(-9, -7))
            sc.append(d)
    exe = c.build("h_step")
    c.sample(sc[0])
    c.conform(exe, "StepTrace", sc, what="time step", mem="3g")
    par = [s for s in sc if not s.get("embedded") and s["cells"][0] * s["cells"][1] > 1 and not s.get("local")]
    for np in (2, 3):
        c.conform(exe, "StepTrace", rng.sample(par, min(len(par), 60 if t else 10)), what="time step on %d processes" % np, np=np, groups=3, selftest=False, mem="3g")

vlib.main("P23", body)
