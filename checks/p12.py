#!/usr/bin/env python3
"""P12: semi-Lagrangian streaming transports populations along their velocities."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

SETS = {2: ["D2Q9", "D2Q19H", "D2Q19V", "D2Q25H"],
        3: ["D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27", "RD3Q27", "D3V27", "D3Q45", "D3Q77"]}

def box(rng, D, kinds="P", **kw):
    per = "".join(rng.choice(kinds) * 2 for _ in range(D))
    d = dict(D=D, stencil=rng.choice(SETS[D]), cells=[rng.randint(1, 4 if D == 2 else 2) for _ in range(D)],
             size=[round(rng.uniform(.5, 3), 4) for _ in range(D)], origin=[round(rng.uniform(-2, 2), 4) for _ in range(D)],
             kind=per, order=rng.randint(1, 5 if D == 2 else 3), seed=rng.randrange(10**6), points=30 if D == 2 else 16)
    if rng.random() < .4:
        d["scaling"] = round(rng.choice([.2, 1.5, 7]) * rng.uniform(.8, 1.2), 4)
    if rng.random() < .2:
        d["again"] = True
    if rng.random() < .3:
        d["labels"] = rng.sample(range(1, 60), 2 * D)
    d.update(kw)
    return d

def cfl(d, rng, xs):
    """time steps that move the fastest populations by about x cells"""
    h = min(s / n for s, n in zip(d["size"], d["cells"])) / 2 ** (d.get("refine", 0) + d.get("local", 0))
    v = d.get("scaling", 1) * (3 if d["stencil"] in ("D3V27", "D3Q77") else 2)
    d["dt"] = [round(x * h / v * rng.uniform(.8, 1.2), 6) for x in xs]
    return d

def scenarios(c, n2, n3, kinds, far=(.3, 1, 3.3)):
    rng, sc = c.rng, []
    for D, n in ((2, n2), (3, n3)):
        for i in range(n):
            b = lambda **kw: box(rng, D, kinds, **kw)
            s = SETS[D][i % len(SETS[D])]
            f = list(far) if D == 2 else list(far[:2])
            if D == 3 and s == "D3Q77" or s == "D3V27":
                f = f[:2]
            sc.append(cfl(b(stencil=s), rng, f))
            sc.append(cfl(b(stencil=s, field="nodal"), rng, f))
            sc.append(cfl(b(stencil=s, stretch=round(rng.uniform(.3, .8), 3), cells=[rng.randint(2, 4 if D == 2 else 2) for _ in range(D)],
                            field=rng.choice(["poly", "nodal"])), rng, f[:2]))
            if D == 2 or i % 3 == 0:
                sc.append(cfl(b(refine=1, local=1, cells=[rng.randint(2, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 3 if D == 2 else 2)), rng, f[:2] if D == 2 else f[:1]))
    return sc

def body(c):
    rng = c.rng
    t = c.thorough
    sc = scenarios(c, 240 if t else 10, 90 if t else 9, "P")
    for i in range(20 if t else 5): # curved cells
        d = cfl(box(rng, 2, "P", distort=round(rng.uniform(.03, .08), 3), cells=[3, 3], order=rng.randint(1, 3)), rng, [.3])
        d.pop("scaling", None)
        sc.append(d)
    for i in range(6 if t else 2): # paths through many cells
        n = rng.randint(5, 9)
        sc.append(box(rng, 2, "P", stencil="D2Q9", cells=[n, 1], size=[n * .25, 4], order=rng.randint(1, 3), scaling=1, dt=[round(.25 * rng.uniform(42, 43.5), 4)], points=20))
        sc.append(box(rng, 3, "P", stencil="D3Q15", cells=[n, 1, 1], size=[n * .2, 4, 5], order=1, scaling=1, dt=[round(.2 * rng.uniform(41.5, 42.8), 4)], points=8))
    exe = c.build("h_stream")
    c.sample(sc[0])
    c.conform(exe, "StreamTrace", sc, what="streaming", mem="3g")
    par = [cfl(box(rng, D, "P", cells=[rng.randint(3, 4) if D == 2 else 2 for _ in range(D)], refine=1 if D == 2 else rng.randint(0, 1), order=2,
                   stencil=rng.choice(["D2Q9", "D2Q19V"] if D == 2 else ["D3Q15", "D3Q19"])), rng, [.2, .4]) for D in (2, 2, 2, 3) for _ in range(8 if t else 2)]
    for np in (2, 3):
        c.conform(exe, "StreamTrace", par[np - 2::2], what="streaming on %d processes" % np, np=np, groups=2, selftest=False, mem="3g")

if __name__ == "__main__":
    vlib.main("P12", body)
