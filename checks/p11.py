#!/usr/bin/env python3
"""P11: collisions conserve mass and momentum and relax stress with the viscosity."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, collision as co, models

def body(c):
    exe = c.build("h_collide")
    rng = c.rng
    sc = []
    for m in co.models():
        for k in range(12 if c.thorough else 3):
            d = dict(m, **co.params(rng, co.dim(m["set"])))
            if k == 2:
                d = co.settle(d)
            elif k % 3 == 1:
                d["nu"] = round(10 ** rng.uniform(-7, 2), 9)
            sc.append(d)
    for i, (s, m, e) in enumerate(co.TWO + co.TWO_BGK): # with temperature
        for k in range(6 if c.thorough else 2):
            sc.append(dict(set=s, scheme=m, eq=e, thermal=True, **dict(co.params(rng, co.dim(s)), gamma=round(rng.uniform(1.2, 1.67), 3))))
    c.sample(sc[0])
    c.conform(exe, "CollisionTrace", sc, what="collisions", tenv={"WANT": "P11"}, mem="3g")
    c.conform(c.build("h_model"), "ModelsTrace", models.free(rng, 24 if c.thorough else 3), what="classes", mem="3g")

if __name__ == "__main__":
    vlib.main("P11", body)
