#!/usr/bin/env python3
"""P24: uniform flow is steady, periodic flows keep mass and momentum, images of flows are flows of images."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import box
from collision import ISO, MRT, TWO

MODELS = [dict(stencil=s, collision=c, equilibrium=e) for s, c, e in ISO] + [dict(stencil=s, collision="MRT_STANDARD", equilibrium="BGK_EQUILIBRIUM", basis=b, relax=m) for s, b, m in MRT]
INTEGRATORS = [dict(integrator=i) for i in ("RUNGE_KUTTA_5STAGE", "THETA_METHOD", "EXPONENTIAL")] + [dict(integrator="OTHER", deal=d) for d in (
    "FORWARD_EULER RK_THIRD_ORDER RK_CLASSIC_FOURTH_ORDER BACKWARD_EULER IMPLICIT_MIDPOINT CRANK_NICOLSON SDIRK_TWO_STAGES HEUN_EULER BOGACKI_SHAMPINE DOPRI FEHLBERG CASH_KARP").split()]
MIRRORS = {"D2Q19H", "D2Q19V", "D3Q13", "D3Q21"}
SYMMETRIC = {"D2Q9", "D2Q25H", "D3Q15", "D3Q19", "D3Q27", "D3V27"}

def dim(m):
    return 3 if "D3" in m["stencil"] else 2

def image(rng, d, walls):
    """the scenario under a random symmetry of the box"""
    D = d["D"]
    perm = list(range(D)) if d["stencil"] in MIRRORS else rng.sample(range(D), D)
    sign = [rng.choice([1, -1])] * D if d["stencil"] == "D3Q45" else [rng.choice([1, -1]) for _ in range(D)]  # the 45 velocities: only all axes at once
    e = dict(d, mode="image", perm=perm, sign=sign)
    for k in ("cells", "size", "origin"):
        e[k] = [d[k][p] for p in perm]
    e["kind"] = ""
    side = []
    for a in range(D):
        s = [2 * perm[a], 2 * perm[a] + 1]
        if sign[a] < 0:
            s.reverse()
        side += s
    e["kind"] = "".join(d["kind"][s] for s in side)
    e["wallv"] = [sign[i] * d["wallv"][s * D + perm[i]] for s in side for i in range(D)]
    if "force" in d:
        e["force"] = [sign[i] * d["force"][perm[i]] for i in range(D)]
    e["shift"] = [rng.randint(0, 3) if e["kind"][2 * a] == "P" and not d.get("stretch") else 0 for a in range(D)]
    return e

def body(c):
    rng, t = c.rng, c.thorough
    sc = []
    def base(m, D, kinds="P", **kw):
        d = box(rng, D, kinds, cells=[rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 4 if D == 2 else 2), nu=round(10 ** rng.uniform(-3, 0), 5), cfl=round(rng.uniform(.1, .8), 3),
                rho=round(rng.uniform(.7, 1.5), 3), u=[round(rng.uniform(-.1, .1), 4) for _ in range(D)], steps=rng.randint(2, 4), field="const")
        d.pop("again", None)
        d.pop("labels", None)
        d["amp"] = .05 * d.get("scaling", 1)
        d.update(m)
        d.update(kw)
        if d["stencil"] in ("D3Q45", "D3Q77", "D3V27"):
            d["order"] = 1
        return d
    def advect(d, i):
        """semi-Lagrangian or discontinuous Galerkin with one of the integrators and maybe a filter"""
        if i % 3 == 0:
            d["advection"] = "SL"
            return d
        d["advection"] = "SEDG" if i % 3 == 1 else "central"
        d.update(INTEGRATORS[(i // 3) % len(INTEGRATORS)])
        d["cfl"] = round(rng.uniform(.05, .3), 3)
        if d["order"] > 3:
            d["order"] = 3
        if d.get("integrator") == "EXPONENTIAL" or d["D"] == 3:
            d["order"] = min(d["order"], 2)
        if rng.random() < .3:
            d.update(filter=rng.choice(["exp", "new"]), alpha=rng.choice([.3, 10, 36]), s=rng.choice([1, 3.5, 20]), Nc=rng.randint(1, d["order"]), interval=rng.choice([1, 2]))
        d["tol"] = "1e-7" if "THETA" in d.get("integrator", "") or d.get("deal", "") in ("BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES") else "1e-10"
        d["drift"] = d["tol"]
        return d
    def shape(d):
        r = rng.random()
        if r < .25:
            d["stretch"] = round(rng.uniform(.2, .8), 3)
        elif r < .4 and d["D"] == 2:
            d.update(distort=round(rng.uniform(.03, .09), 3), cells=[2, 2], order=min(d["order"], 2))
        elif r < .55 and d.get("advection") == "SL":
            d.update(refine=1 if d["D"] == 2 else 0, local=1, cells=[2] * d["D"], order=min(d["order"], 2))
        return d
    # uniform flows
    n = 0
    for k in range(12 if t else 2):
        for m in MODELS:
            n += 1
            if dim(m) == 3 and not t and (n + k) % 2:
                continue
            d = shape(advect(base(m, dim(m), keeps=m["equilibrium"] == "BGK_EQUILIBRIUM" and m["collision"] != "MRT_STANDARD"), rng.randrange(1000)))
            if rng.random() < .25 and not d.get("filter"):
                d["forcing"] = rng.choice(["SHIFTING_VELOCITY", "EXACT_DIFFERENCE"])
                d["force"] = [round(rng.uniform(-.02, .02) * d.get("scaling", 1) ** 2, 5) for _ in range(d["D"])]
                d["keeps"] = False
            sc.append(d)
    for i in range(len(INTEGRATORS) * 2): # every integrator
        sc.append(shape(advect(base(rng.choice(MODELS[:1] + MODELS[18:19]), 2, stencil="D2Q9", keeps=True, collision="BGK_STANDARD", equilibrium="BGK_EQUILIBRIUM"), 3 * i + 1 + i // len(INTEGRATORS))))
    # compressible
    for s, col, eq in TWO:
        for k in range(6 if t else 1):
            D = dim(dict(stencil=s))
            m = dict(stencil=s, collision=col, equilibrium=eq, gamma=round(rng.uniform(1.1, 1.6), 3), T=round(rng.uniform(.85, 1.2), 3))
            if k % 2:
                m["prandtl"] = round(rng.uniform(.4, 2), 3)
            sc.append(base(m, D, advection="SL", order=rng.randint(1, 2 if D == 2 else 1), cells=[rng.randint(1, 2) for _ in range(D)], keeps=True, scaling=1))
    exe = c.build("h_steady")
    c.sample(sc[0])
    c.conform(exe, "SteadyTrace", sc, what="uniform flow", mem="3g")
    # sums and images
    chains = []
    for k in range(10 if t else 2):
        for m in MODELS:
            D = dim(m)
            if m["stencil"] in ("D3Q45", "D3Q77") and not t:
                continue
            if D == 3 and not t and rng.random() < .4:
                continue
            kinds = "P"
            d = advect(base(m, D, field="trig", waves=1, famp=.03, steps=2 if D == 3 else 4), rng.choice([0, 0, 1, 4, 7, 10, 13, 2]))
            if k % 2: # walls along one axis: where walls meet it is open which one a path meets first
                kinds, a = "PW", rng.randrange(D)
                d["kind"] = "".join(rng.choice("WWB") + rng.choice("WWB") if i == a else "PP" for i in range(D))
            elif d["advection"] == "SL" and D == 2: # sums are kept as well as the elements resolve the flow
                d["cells"], d["order"] = [rng.randint(3, 4) for _ in range(D)], rng.choice([1, 3, 4])
            if d["advection"] != "SL":
                d["kind"] = d["kind"].replace("B", "W")
            d["mode"] = "keeps" if "W" not in d["kind"] and "B" not in d["kind"] else "base"
            d["wallv"] = [round(rng.uniform(-.05, .05), 4) * d.get("scaling", 1) for _ in range(2 * D * D)]
            if rng.random() < .3 and not d.get("filter"):
                d["forcing"] = rng.choice(["SHIFTING_VELOCITY", "EXACT_DIFFERENCE"])
                d["force"] = [round(rng.uniform(-.02, .02) * d.get("scaling", 1) ** 2, 5) for _ in range(D)]
            if d["advection"] == "SL" and d["mode"] == "keeps" and (d["order"] > 1 or D == 3):
                d["drift"] = "1e-5" if D == 2 else "1e-2"
            if rng.random() < .3:
                d["stretch"] = round(rng.uniform(.2, .6), 3)
                if d["advection"] == "SL":
                    d["drift"] = "2e-2"
            ch = [d]
            if m["stencil"] in SYMMETRIC | MIRRORS:
                ch += [image(rng, d, kinds != "P") for _ in range(2)]
            chains.append(ch)
    c.conform(exe, "SteadyTrace", chains, what="sums and images", mem="3g")
    # compressible flows: sums with the energy, images, walls
    chains = []
    for k in range(8 if t else 2):
        for s, col, eq in TWO:
            D = dim(dict(stencil=s))
            if s == "D3Q77" and (k or not t):
                continue
            for walls in (False, True):
                d = base(dict(stencil=s, collision=col, equilibrium=eq), D, advection="SL", field="trig", waves=1, famp=.03, steps=2 if D == 3 else 4, scaling=1, order=1, T=round(rng.uniform(.9, 1.1), 3), tamp=round(rng.uniform(-1, 1), 3),
                         gamma=round(rng.uniform(1.2, 1.6), 3), cells=[rng.randint(1, 2) if D == 3 else rng.randint(3, 4) for _ in range(D)], mode="base" if walls else "keeps")
                if rng.random() < .4:
                    d["prandtl"] = round(rng.uniform(.4, 2), 3)
                if D == 2 and not walls:
                    d["order"] = rng.choice([1, 3, 4])
                    d["drift"] = "1e-10" if d["order"] == 1 else "1e-5"
                if D == 3:
                    d["drift"] = "1e-2"
                d["wallv"] = [round(rng.uniform(-.03, .03), 4) for _ in range(2 * D * D)]
                if walls:
                    a = rng.randrange(D)
                    d["kind"] = "".join(rng.choice("WWBT" if s == "D3Q45" else "WWB") + rng.choice("WWBT" if s == "D3Q45" else "WWB") if i == a else "PP" for i in range(D))
                    d["temp"] = round(rng.uniform(.9, 1.1), 3)
                chains.append([d] + [image(rng, d, walls) for _ in range(2)] * (s not in ("D2Q19H", "D2Q19V") or True))
    # at rest between walls of the same temperature
    for s in ("D2Q25H", "D2Q19V", "D3Q45", "D3Q45"):
        D = dim(dict(stencil=s))
        d = base(dict(stencil=s, collision="BGK_STANDARD", equilibrium="QUARTIC_EQUILIBRIUM"), D, advection="SL", steps=3, scaling=1, order=1, rho=1, u=[0] * D, T=round(rng.uniform(.9, 1.1), 3), gamma=round(rng.uniform(1.2, 1.6), 3),
                 cells=[rng.randint(1, 2) for _ in range(D)], keeps=True, wallv=[0] * (2 * D * D))
        one = s == "D2Q19V" or rng.random() < .5  # first-order walls only where no two of them meet (known finding of P13)
        d["kind"] = "".join("PP" if i and one else rng.choice(("BT" if s == "D3Q45" else "B") if one else ("WT" if s == "D3Q45" else "W")) * 2 for i in range(D))
        d["temp"] = d["T"]
        if "T" in d["kind"]:
            d["gamma"] = 1.4  # (known finding: the class takes 1.4 for every gas)
        chains.append([d])
    d = base(dict(stencil="D3Q45", collision="BGK_STANDARD", equilibrium="QUARTIC_EQUILIBRIUM"), 3, advection="SL", steps=3, scaling=1, order=1, rho=1, u=[0] * 3, T=1.02, gamma=1.6, cells=[2, 1, 1], keeps=True, wallv=[0] * 18)
    chains.append([dict(d, kind="TTPPPP", temp=1.02, case="thermal wall, gas of another gamma")])
    # in- and outflow of the same state
    for s in ("D2Q25H", "D2Q19H", "D2Q19V", "D3Q45"):
        D = dim(dict(stencil=s))
        d = base(dict(stencil=s, collision="BGK_STANDARD", equilibrium="QUARTIC_EQUILIBRIUM"), D, advection="SL", steps=3, scaling=1, order=1, rho=1, T=round(rng.uniform(.9, 1.1), 3), gamma=round(rng.uniform(1.2, 1.6), 3),
                 cells=[rng.randint(1, 2) for _ in range(D)], keeps=True)
        d["kind"] = "EE" + "PP" * (D - 1)
        d["uwall"], d["temp"] = d["u"], d["T"]
        chains.append([d])
    c.conform(exe, "SteadyTrace", chains, what="compressible flows", mem="3g")

vlib.main("P24", body)
