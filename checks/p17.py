#!/usr/bin/env python3
"""P17: time integrators advance linear systems as their scheme says."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

EXPLICIT = ["FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER"]
IMPLICIT = ["BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES"]
EMBEDDED = ["HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP"]
KINDS = ["random", "upper", "zero", "balance", "negative", "skew"]

def system(rng, name, types, np=1):
    t = rng.choice(types)
    d = dict(type=t, scheme=name, seed=rng.randrange(10**6), dt=round(10 ** rng.uniform(-2, -.3), 5), t=round(rng.uniform(0, 50), 3), alter=1,
             steps=rng.randint(3, 8), matrix=rng.choice(KINDS), source=rng.random() < .6, state=rng.choice(["random", "random", "const", "zero"]),
             scale=round(10 ** rng.uniform(-.5, .5), 4), n=rng.randint(np, 4))
    if "block" in t:
        d["blocks"] = rng.randint(1, 3)
    N = d["n"] * d.get("blocks", 1)
    if name == "THETA":
        d.update(theta=rng.choice([0, .5, .5, 1, round(rng.uniform(0, 1), 3)]), tol="1.1e-6")
    if name == "EXPONENTIAL" and N > 6: # Krylov spaces of dimension six
        d.update(scale=.3, tol="1e-8")
    if name in IMPLICIT:
        d.update(tol="4e-6", solver=rng.choice([0, 2, 3]), scale=1, dt=min(d["dt"], .2))
        if d["matrix"] == "negative":
            d["solver"] = rng.choice([0, 1, 2, 3, 4, 7])
    if name in EMBEDDED:
        d["tuned"] = rng.random() < .7
        d.update(refinetol=float("%.2g" % 10 ** rng.uniform(-8, -3)), ratio=rng.choice([.5, .1, .001]), min=rng.choice([.3, .01]), tol="1e-10")
        if not d["tuned"]:
            d.update(dt=round(min(d["dt"], .05), 5), scale=.5)
    return d

def body(c):
    rng, t = c.rng, c.thorough
    c.model("IntegrateModel", workers=8, must_cover=["Step", "Adapt"], min_states=1000)
    exe = c.build("h_time")
    all4 = ["sparse", "block", "dist", "distblock"]
    names = ["RK5", "THETA", "EXPONENTIAL"] + EXPLICIT + IMPLICIT + EMBEDDED
    sc = [system(rng, n, [ty]) for n in names for ty in all4 for _ in range(60 if t else 8)]
    sc += [system(rng, "EXPONENTIAL", all4) for _ in range(200 if t else 30)]
    c.sample(sc[0])
    c.conform(exe, "IntegrateTrace", sc, what="integrators")
    for np in (2, 3):
        par = [system(rng, n, ["dist", "distblock"], np) for n in names for _ in range(12 if t else 1)]
        c.conform(exe, "IntegrateTrace", par, what="integrators on %d processes" % np, np=np, groups=2, selftest=False)

vlib.main("P17", body)
