#!/usr/bin/env python3
"""P07: the collision model that was configured is the one that runs, exactly once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, collision as co

SETS = "D2Q9 D2Q19H D2Q19V D2Q25H D3Q13 D3Q15 D3Q19 D3Q21 D3Q27 RD3Q27 D3V27 D3Q45 D3Q77".split()
SCHEMES = """BGK_STANDARD BGK_STANDARD_TRANSFORMED BGK_STEADY_STATE BGK_MULTIPHASE BGK_INCOMPRESSIBLE MRT_STANDARD MRT_ENTROPIC
ENTROPIC_STABILIZED KBC_STANDARD KBC_CENTRAL BGK_MULTI_AM4 BGK_MULTI_BDF2 BGK_REGULARIZED""".split()
EQ = "BGK_EQUILIBRIUM QUARTIC_EQUILIBRIUM INCOMPRESSIBLE_EQUILIBRIUM STEADYSTATE_EQUILIBRIUM ENTROPIC_EQUILIBRIUM".split()

def body(c):
    exe = c.build("h_collide")
    rng = c.rng
    tenv = {"WANT": "P07"}
    # every combination there is a meaning for
    good = []
    for k in range(6 if c.thorough else 1):
        for m in co.models():
            for f in ("NO_FORCING", "SHIFTING_VELOCITY", "EXACT_DIFFERENCE"):
                d = dict(m, **co.params(rng, co.dim(m["set"])))
                if f != "NO_FORCING":
                    d["forcing"] = f
                    d["force"] = co.force(rng, d)
                good.append(d)
        for s, sch, eq in co.TWO_BGK + co.TWO + ([("D2Q777", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM")] if c.thorough and k == 0 else []):
            for pr, su, f in ((0, False, None), (0.7, False, None), (1.3, True, "SHIFTING_VELOCITY"), (0, True, "EXACT_DIFFERENCE")):
                d = dict(set=s, scheme=sch, eq=eq, thermal=True, **co.params(rng, co.dim(s)))
                d.update(T=round(rng.uniform(0.8, 1.3), 3), gamma=round(rng.uniform(1.1, 1.6), 3), nodes=2, amp=min(d["amp"], 0.2))
                if pr:
                    d["prandtl"] = pr
                if su:
                    d["sutherland"] = True
                if f:
                    d["forcing"] = f
                    d["force"] = co.force(rng, d)
                good.append(d)
    c.sample(good[0])
    c.sample(good[-1])
    c.conform(exe, "CollisionTrace", good, what="models", tenv=tenv, mem="3g")
    # every other combination, one process each: refused, with the populations untouched
    bad = []
    have = set(co.ISO) | {("D2Q9", "MRT_STANDARD", "BGK_EQUILIBRIUM"), ("D3Q19", "MRT_STANDARD", "BGK_EQUILIBRIUM")}
    two = set(co.TWO + co.TWO_BGK)
    for s in SETS:
        for sch in SCHEMES:
            for eq in EQ:
                for th in (False, True):
                    if (s, sch, eq) not in (two if th else have):
                        bad.append(dict(set=s, scheme=sch, eq=eq, thermal=th, u=[0.02] * co.dim(s), nodes=1, amp=0.2))
    near = [d for d in bad if d["eq"] in EQ[:2] and d["scheme"] in ("BGK_STANDARD", "MRT_STANDARD", "BGK_REGULARIZED")]
    rest = [d for d in bad if d not in near]
    rng.shuffle(near)
    rng.shuffle(rest)
    for s, b, m in [("D2Q9", "LALLEMAND_D2Q9", "DELLAR_RELAX_ONLY_N"), ("D2Q9", "DHUMIERES_D3Q19", "RELAX_FULL"),
                    ("D2Q9", "DELLAR_D2Q9", "RELAX_DHUMIERES_PAPER"), ("D3Q19", "DELLAR_D2Q9", "RELAX_FULL"),
                    ("D3Q19", "DHUMIERES_D3Q19", "DELLAR_RELAX_ONLY_N")]:
        near.insert(0, dict(set=s, scheme="MRT_STANDARD", basis=b, mode=m, u=[0.02] * co.dim(s), nodes=1))
    ask = near + rest if c.thorough else near[:64] + rest[:24]
    c.extra["refused_combinations"] = len(ask)
    c.conform(exe, "CollisionTrace", ask, what="refusals", tenv=tenv, isolate=True)

if __name__ == "__main__":
    vlib.main("P07", body)
