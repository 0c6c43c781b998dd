#!/usr/bin/env python3
"""P26: benchmark flows solve the equations they stand for."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

def scenarios(rng, t):
    sc = []
    u = lambda a, b, n=4: round(rng.uniform(a, b), n)
    for i in range(60 if t else 12):
        L = 6.283185307179586
        nu = round(10 ** u(-3, 0), 6)
        k = 6.283185307179586 / L
        sc.append(dict(flow="vortex", nu=nu, U=rng.choice([0, u(-1, 1)]), L=L, cs=rng.choice([0.57735026919, u(.3, 20)]), pressure=i % 4 != 3, seed=rng.randrange(10**6),
                       times=[0.1, round(rng.uniform(.2, 2) / (nu * k * k + 2 * k), 5)], k=round(.01 / (nu * k * k + 2 * k), 8), h=.003, refine=rng.randint(0, 2), points=4, tol="1e-5"))
    for i in range(60 if t else 12):
        D = 3 if i % 4 == 0 else 2
        uneven = i % 5 == 2 and D == 2
        L = 1 if D == 3 or uneven else rng.choice([1, u(.2, 6)])
        nu = round(10 ** u(-3, 0), 6)
        T = L * L / nu
        sc.append(dict(flow="couette", D=D, nu=nu, U=u(.01, .5), L=L, seed=rng.randrange(10**6), t0=rng.choice([0, 0, round(.01 * T, 6)]), uneven=uneven, times=[round(x * T, 6) for x in (.03, .1, .4)],
                       k=round(.0005 * T, 9), h=.003, refine=1, points=4, tol="2e-4"))
    for i in range(20 if t else 6):
        D = 2 + i % 2
        s = [u(.3, 8) for _ in range(D)]
        sc.append(dict(flow="poiseuille", D=D, nu=round(10 ** u(-3, 0), 6), U=u(.01, .5), L=s[-1], sides=s, refine=rng.randint(0, 2)))
    for i in range(20 if t else 5):
        sc.append(dict(flow="layer", nu=.01, U=u(.01, .5), kappa=u(5, 90, 2), amp=u(.01, .2), L=1, refine=rng.randint(1, 3), points=12, h=.0003, seed=rng.randrange(10**6)))
        sc.append(dict(flow="vortices", D=3, nu=.01, cs=u(.3, 20), pressure=i % 3 != 1, L=6.283185307179586, repeat=rng.randint(1, 3), refine=rng.randint(0, 1), points=8, h=.001, seed=rng.randrange(10**6)))
    # boxes that are not the ones of the solution: see known_findings.txt
    sc.append(dict(flow="vortex", case="vortex in a box of another length", nu=.1, U=.5, L=u(1, 4), cs=2, pressure=True, seed=5, times=[.1, .6], k=.001, h=.003, refine=1, points=4, tol="1e-5"))
    T = dict(flow="couette", nu=.05, U=.1, seed=3, t0=0, times=[.5], k=.01, h=.003, refine=1, points=2, tol="2e-4")
    sc.append(dict(T, case="long channel", D=3, L=rng.randint(2, 5)))
    sc.append(dict(T, case="uneven channel of other height", D=2, L=u(1.5, 4), uneven=True))
    sc.append(dict(T, case="uneven channel with three dimensions", D=3, L=1, uneven=True))
    return sc

def body(c):
    sc = scenarios(c.rng, c.thorough)
    exe = c.build("h_exact")
    c.sample(sc[0])
    c.conform(exe, "ExactTrace", [d for d in sc if "case" not in d], what="benchmark flows", mem="2g")
    c.conform(exe, "ExactTrace", [d for d in sc if "case" in d], what="boxes other than those of the solution", mem="2g", isolate=True, selftest=False)

if __name__ == "__main__":
    vlib.main("P26", body)
