#!/usr/bin/env python3
"""P22: compressible collisions also conserve energy."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, collision as co

def body(c):
    exe = c.build("h_collide")
    rng = c.rng
    sc = []
    for s, sch, eq in co.TWO + ([("D2Q777", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM")] if c.thorough else []):
        for k in range(16 if c.thorough and s != "D2Q777" else 6):
            d = dict(set=s, scheme=sch, eq=eq, thermal=True, **co.params(rng, co.dim(s)))
            d.update(T=round(rng.uniform(0.7, 1.4), 3), gamma=round(rng.uniform(1.05, 1.66), 3), amp=min(d["amp"], 0.3))
            if k % 2:
                d["prandtl"] = round(rng.uniform(0.3, 3), 3)
            if k % 3 == 1:
                d["sutherland"] = True
            if k in (2, 3):
                d = co.settle(d)
                d["nu"] = round(d["nu"] * d["rho"], 8)
            elif k in (4, 5):
                d["equil"] = True
            sc.append(d)
    c.sample(sc[0])
    c.conform(exe, "CollisionTrace", sc, what="collisions with energy", tenv={"WANT": "P22"}, mem="3g")

if __name__ == "__main__":
    vlib.main("P22", body)
