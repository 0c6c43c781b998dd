#!/usr/bin/env python3
"""P21: a body force adds exactly force times time step of momentum."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, collision as co, models

def body(c):
    exe = c.build("h_collide")
    rng = c.rng
    sc, bad = [], []
    for m in co.models():
        for k in range(8 if c.thorough else 2):
            for f in ("SHIFTING_VELOCITY", "EXACT_DIFFERENCE"):
                d = dict(m, **co.params(rng, co.dim(m["set"])))
                d["forcing"] = f
                d["force"] = co.force(rng, d)
                if k % 4 == 3:
                    d["force"] = [0 if rng.random() < 0.6 else x for x in d["force"]]
                sc.append(d)
        for f in ("NO_FORCING", "GUO"):
            d = dict(m, **co.params(rng, co.dim(m["set"])))
            bad.append(dict(d, forcing=f, force=co.force(rng, d)))
    for s, sch, eq in co.TWO_BGK + co.TWO:
        for f in ("SHIFTING_VELOCITY", "EXACT_DIFFERENCE"):
            for k in range(6 if c.thorough else 1):
                d = dict(set=s, scheme=sch, eq=eq, thermal=True, **co.params(rng, co.dim(s)))
                d.update(T=round(rng.uniform(0.8, 1.3), 3), gamma=round(rng.uniform(1.1, 1.6), 3), amp=min(d["amp"], 0.2), forcing=f, force=co.force(rng, d),
                         sutherland=rng.random() < 0.5)
                sc.append(d)
    c.sample(sc[0])
    c.conform(exe, "CollisionTrace", sc, what="forces", tenv={"WANT": "P21"}, mem="3g")
    rng.shuffle(bad)
    c.conform(exe, "CollisionTrace", bad if c.thorough else bad[:16], what="refused forces", tenv={"WANT": "P21"}, isolate=True)
    c.conform(c.build("h_model"), "ModelsTrace", models.forced(rng, 24 if c.thorough else 4), what="classes", mem="3g")

if __name__ == "__main__":
    vlib.main("P21", body)
