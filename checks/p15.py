#!/usr/bin/env python3
"""P15: results do not depend on the number of processes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import box
from collision import ISO, TWO

MODELS = [dict(stencil=s, collision=c, equilibrium=e) for s, c, e in ISO if s not in ("D3Q45", "D3Q77", "D3V27")] + [dict(stencil="D2Q9", collision="MRT_STANDARD", equilibrium="BGK_EQUILIBRIUM")]

def body(c):
    rng, t = c.rng, c.thorough
    n = [0]
    def base(D, **kw):
        n[0] += 1
        m = rng.choice([m for m in MODELS if m["stencil"].startswith("D%d" % D)])
        d = box(rng, D, "PW", cells=[rng.randint(2, 4) if D == 2 else 2 for _ in range(D)], order=rng.randint(1, 4 if D == 2 else 2), nu=round(10 ** rng.uniform(-2, 0), 5), cfl=round(rng.uniform(.1, .6), 3),
                rho=1.0, u=[round(rng.uniform(-.1, .1), 4) for _ in range(D)], steps=rng.randint(3, 8), field="trig", waves=1, famp=.03, whole=True, files=True, mode="base", dir="d%d" % n[0],
                table=rng.randint(1, 4), solution=rng.randint(1, 4), turb=rng.random() < .3, tol="1e-9", advection=rng.choice(["SL", "SL", "SEDG", "central"]))
        d.pop("again", None)
        d.update(m)
        d["amp"] = .05 * d.get("scaling", 1)
        if d["advection"] == "SL":
            d["kind"] = "".join(2 * rng.choice("PPWB") for _ in range(D))
            r = rng.random()
            if r < .25:
                d.update(refine=1 if D == 2 else 0, local=1, cells=[2] * D, order=min(d["order"], 2), kind="P" * 2 * D, famp=1e-3, amp=2e-3 * d.get("scaling", 1), tol="4e-4")  # on the line between coarse and fine cells either side may be interpolated
        else:
            d["order"] = min(d["order"], 3 if D == 2 else 2)
            d["cfl"] = .2
            d["integrator"], d["deal"] = rng.choice([("RUNGE_KUTTA_5STAGE", "NONE"), ("OTHER", "RK_CLASSIC_FOURTH_ORDER"), ("EXPONENTIAL", "NONE"), ("THETA_METHOD", "NONE")])
            if rng.random() < .3:
                d.update(filter=rng.choice(["exp", "new"]), alpha=10, s=2, Nc=1, interval=1)
        if rng.random() < .3 and not d.get("local"):
            d["stretch"] = round(rng.uniform(.2, .6), 3)
        if rng.random() < .25:
            d["forcing"] = rng.choice(["SHIFTING_VELOCITY", "EXACT_DIFFERENCE"])
            d["force"] = [round(rng.uniform(-.02, .02) * d.get("scaling", 1) ** 2, 5) for _ in range(D)]
        if d["turb"] and rng.random() < .6 and not d.get("local") and not d.get("stretch"):
            a = rng.randrange(D)
            d.update(axis=a, planes=[d["origin"][a], d["origin"][a] + d["size"][a] / d["cells"][a] / 2 ** d.get("refine", 0)])
        if d["kind"] == "P" * 2 * D and rng.random() < .4:
            d.update(init="ITERATIVE", initsteps=rng.randint(1, 5), stencil="D2Q9" if D == 2 else "D3Q19", collision="BGK_STANDARD", equilibrium="BGK_EQUILIBRIUM")
        d.update(kw)
        return d
    def on(d, np, **kw):
        e = dict(d, _np=np)
        if np > 1 or kw:
            e.update(mode="image", dir="%s_%d" % (d["dir"], np))
        e.update(kw)
        return e
    chains = []
    for D, k in ((2, 60 if t else 14), (3, 20 if t else 5)):
        for i in range(k):
            d = base(D)
            chains.append([on(d, 1)] + [on(d, np) for np in ((2, 3, 4) if t else rng.sample((2, 3, 4), 2))])
    # resumed by another number of processes
    for i in range(24 if t else 6):
        D = 2 if i % 3 else 3
        d = base(D, turb=False, steps=6)
        if d.get("filter"):
            d["advection"] = d["advection"]
        a, b = rng.choice([(1, 2), (1, 3), (2, 1), (2, 3), (3, 1), (3, 2)])
        half = dict(d, _np=a, quiet=True, steps=3, checkpoint=3, dir=d["dir"] + "_r")
        chains.append([on(d, 1), half, on(d, b, restart=3, part=True, dir=d["dir"] + "_r", checkpoint=1000000000)])
    # until nothing changes
    for i in range(4 if t else 1):
        d = base(2, stencil="D2Q9", collision="BGK_STANDARD", equilibrium="BGK_EQUILIBRIUM", cells=[2, 2], order=2, cfl=.4, steps=600, threshold=1e-3 * 10 ** rng.uniform(-1, 0), table=100, solution=100, turb=False, nu=.3, advection="SL", kind="PPPP")
        d.pop("force", None), d.pop("forcing", None)
        for x in ("local", "filter", "integrator", "deal"):
            d.pop(x, None)
        d.update(refine=0, tol="1e-9")
        chains.append([on(d, 1), on(d, 3)])
    # filters rely on elements that share no nodes (known finding)
    d = base(2, advection="SL", kind="PPPP", filter="exp", alpha=10, s=2, Nc=1, interval=1, case="filter on continuous elements", turb=False, order=2)
    d.pop("local", None), d.update(refine=0)
    chains.append([on(d, 1), on(d, 3)])
    exe = c.build("h_steady")
    for ch in chains:
        for d in ch:
            d["_timeout"] = 120
    c.sample(chains[0][1])
    c.conform(exe, "SteadyTrace", chains, what="runs on different numbers of processes", isolate=True, mem="3g", groups=4)

vlib.main("P15", body)
