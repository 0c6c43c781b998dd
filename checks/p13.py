#!/usr/bin/env python3
"""P13: walls impose their velocity and create neither mass nor flow."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import SETS, box, cfl

def kinds(rng, D, ks):
    """one kind per axis (two walls of one sort or a periodic pair), at least one wall"""
    while True:
        k = [rng.choice(ks + "P") for _ in range(D)]
        if any(x != "P" for x in k) and k.count("N") + k.count("B") <= 1 and not ("N" in k and set(k) - set("NP")) and not ("B" in k and set(k) - set("BP")):
            return "".join(x * 2 for x in k)

def body(c):
    rng, t = c.rng, c.thorough
    c.model("StreamModel", cfg=vlib.SPEC + "/StreamDeep.cfg" if t else None, workers=8, must_cover=["Travel", "Arrive"], min_states=10000, timeout=800)
    sc = []
    for D, n in ((2, 180 if t else 12), (3, 81 if t else 9)):
        for i in range(n):
            s = SETS[D][i % len(SETS[D])]
            far = [.3, 1.5] if D == 2 else [.3]
            def b(**kw):
                d = cfl(box(rng, D, "W", stencil=s, order=rng.randint(1, 4 if D == 2 else 2), time=round(rng.uniform(0, 3), 3)), rng, far)
                d.update(kw)
                return d
            mixed = list(kinds(rng, D, "WE"))
            if "P" not in mixed and rng.random() < .5: # unlike walls at the two ends of an axis
                mixed[1] = "E" if mixed[1] == "W" else "W"
            wl = rng.choice(["const", "space", "time"])
            if "E" in mixed:
                wl = "const"
            sc.append(b(kind="".join(mixed), walls=wl, temp=rng.choice([1, 1, .9, 1.3])))
            sc.append(b(kind=kinds(rng, D, "W"), walls=rng.choice(["space", "time"]), field="nodal" if rng.random() < .4 else "poly"))
            sc.append(b(kind=kinds(rng, D, "NB"), field="nodal" if rng.random() < .3 else "poly"))
            k = [rng.choice("NNP") for _ in range(D)] # wide enough for paths that start cells away from the opening
            if "N" in k and D == 2:
                sc.append(cfl(b(kind="".join(x * 2 for x in k), cells=[rng.randint(3, 6) for _ in range(D)], order=rng.randint(1, 3)), rng, [.8, 1.7]))
            # a uniform flow between walls that move with it; fluid at rest between resting walls
            u = [0] * D if i % 3 == 0 else [round(rng.uniform(-.1, .1), 4) for _ in range(D)]
            sc.append(b(kind=kinds(rng, D, "W"), uniform=u, uwall=u))
            if i % 3 == 1:
                sc.append(cfl(b(kind="B" * 2 + "P" * (2 * D - 2), uniform=[0] * D), rng, [.3]))
            if D == 2 or i % 4 == 0:
                sc.append(b(kind=kinds(rng, D, "W"), walls=wl, local=1, refine=1 if D == 2 else 0, order=rng.randint(1, 3 if D == 2 else 2),
                            cells=[rng.randint(2, 3 if D == 2 else 2) for _ in range(D)]))
    sc.append(dict(D=2, stencil="D2Q9", cells=[2, 2], size=[1, 1], kind="BBBB", order=2, dt=[.05], uniform=[0, 0]))
    sc.append(dict(D=2, stencil="D2Q9", cells=[3, 3], size=[2.1, 2.6], kind="WWPP", order=2, dt=[.6], points=200, distort=.07))
    exe = c.build("h_stream")
    c.sample(sc[0])
    c.conform(exe, "StreamTrace", sc, what="walls", mem="3g")
    par = [cfl(box(rng, D, "WP", kind=kinds(rng, D, "W"), walls=w, cells=[3, 3] if D == 2 else [2] * D, refine=1 if D == 2 else 0, order=2,
                   stencil="D2Q9" if D == 2 else "D3Q19"), rng, [.2]) for D in (2, 2, 3) for w in ("space", "time") for _ in range(6 if t else 1)]
    for np in (2, 3):
        c.conform(exe, "StreamTrace", par[np - 2::2], what="walls on %d processes" % np, np=np, groups=2, selftest=False, mem="3g")

vlib.main("P13", body)
