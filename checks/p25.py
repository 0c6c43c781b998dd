#!/usr/bin/env python3
"""P25: benchmark runs report their distance to the analytic solution, and solution files hold the fields."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import box
from collision import ISO, TWO

def scenarios(rng, t):
    sc = []
    def b(D, **kw):
        s, scheme, eq = rng.choice([x for x in ISO if x[0].startswith("D%d" % D) and x[0] in ("D2Q9", "D2Q19V", "D3Q15", "D3Q19", "D3Q27")])
        d = box(rng, D, "PW", stencil=s, collision=scheme, equilibrium=eq, cells=[rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 4 if D == 2 else 2),
                advection=rng.choice(["SL", "SL", "SEDG"]), field="trig", rho=round(rng.uniform(.8, 1.3), 3), famp=round(rng.uniform(.01, .05), 3),
                u=[round(rng.uniform(-.1, .1), 4) for _ in range(D)], nu=round(10 ** rng.uniform(-1.5, 0), 5), drho=round(rng.uniform(-1, 1), 3), gamp=round(rng.uniform(.1, 1), 3),
                steps=rng.randint(1, 5), table=rng.randint(1, 3), waves=rng.randint(1, 2))
        d.pop("again", None)
        d["sol"] = rng.choice([1, 1, 2, 3])
        d["kind"] = "P" * 2 * D if rng.random() < .6 else d["kind"]
        d.update(kw)
        d["table"] *= d["sol"] // rng.choice([k for k in (1, 2, 3) if d["sol"] % k == 0 and (d["table"] * d["sol"] // k) % d["sol"] == 0])
        return d
    for D, n in ((2, 60 if t else 10), (3, 16 if t else 3)):
        for i in range(n):
            sc.append(b(D, solutions=True))
            sc.append(b(D))
            if i % 2 == 0:
                sc.append(b(D, solutions=True, stretch=round(rng.uniform(.2, .8), 3)))
            if i % 3 == 0: # with energy
                s, scheme, eq = rng.choice([x for x in TWO if x[0].startswith("D%d" % D)])
                sc.append(b(D, gas=True, solutions=True, stencil=s, collision=scheme, equilibrium=eq, advection="SL", kind="P" * 2 * D, cells=[2] * D, order=rng.randint(1, 2) if D == 2 else 1, scaling=1, rho=1.0, u=[.01] * D, famp=.01, steps=3, table=1))
    # many iterations: a table line now and then
    sc.append(b(2, steps=23, table=1, sol=5, cells=[2, 2], order=2, kind="PPPP", advection="SL"))
    return sc, b

def body(c):
    sc, b = scenarios(c.rng, c.thorough)
    exe = c.build("h_bench")
    c.sample(sc[0])
    c.conform(exe, "BenchTrace", sc, what="benchmarks", mem="3g")
    par = [b(D, solutions=True, cells=[4, 2] if D == 2 else [2] * D, order=2 if D == 2 else 1, kind="P" * 2 * D, advection=a, steps=3, table=1, sol=1, rho=1.0) for D, a in ((2, "SL"), (2, "SEDG"), (3, "SL")) for _ in range(4 if c.thorough else 1)]
    for np in (2, 3):
        c.conform(exe, "BenchTrace", par, what="benchmarks on %d processes" % np, np=np, groups=3, selftest=False, mem="3g")

if __name__ == "__main__":
    vlib.main("P25", body)
