#!/usr/bin/env python3
"""P01: clock and stop rule of the main loop."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

INV = ["ClockRuns", "StopsInTime"]

def body(c):
    r = c.model("RunLoopModel", env={"EMIT": "100"}, workers=8, must_cover=["Start", "Step", "End"])
    gen = vlib.emitted(r["out"])
    exe = c.build("h_solver")
    scn = []
    # from the model: one scenario for each (N, end, start) and reason for stopping
    seen = {}
    for g in gen:
        k = (g["cfg"]["N"], g["cfg"]["end"], g["cfg"]["start"])
        if not g["why"][2]:
            seen.setdefault(k, g["cfg"])
    for n, (k, cf) in enumerate(sorted(seen.items())):
        base = dict(what="loop", cells=[2, 2], refine=1, p=2, N=cf["N"], thr=1e-30, off=False)
        if cf["end"] < 1999999999:
            base["end"] = cf["end"]
        adv = ["SL", "SEDG", "SL"][n % 3]
        base["adv"] = adv
        if adv == "SEDG":
            base["integrator"] = ["RK5", "THETA", "EXP"][(n // 3) % 3]
        if n % 4 == 1:
            base.update(dim=3, cells=[2, 2, 2], stencil=["D3Q19", "D3Q15", "D3Q27"][n % 3], p=1, refine=0, bc="PPP", size=[1, 1, 1])
        if n % 5 == 2:
            base["filter"] = 2
        if n % 7 == 3:
            base["scaling"] = 1.5
        d = "d%d" % n
        if cf["start"]:
            # a first run leaves the checkpoint
            first = dict(base, dir=d, N=cf["start"], chk=cf["start"])
            first.pop("end", None)
            scn.append([first, dict(base, dir=d, clean=False, restart=cf["start"])])
        else:
            scn.append([dict(base, dir=d, off=bool(n % 2))])
    # convergence: looked at every 100 iterations only
    for n, thr in enumerate([1e-1, 1e-2, 2e-3, 1e-3, 1e-4, 1e-5] + ([3e-2, 5e-3, 3e-6, 1e-6] if c.thorough else [])):
        scn.append([dict(what="loop", cells=[2, 2], refine=1, p=2, N=[450, 730][n % 2], thr=thr, off=True, dir="c%d" % n, u0=0.1)])
        scn.append([dict(what="loop", cells=[2, 2], refine=1, p=2, N=650, thr=thr, off=True, dir="r%d" % n, flow="shear", u0=0.1,
                         end=[320500, 220500][n % 2])])
    # a flow along one axis only
    for n, (D, a) in enumerate([(2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]):
        for thr in [1e-3, 1e-5] if c.thorough else [[1e-3, 1e-4][n % 2]]:
            scn.append([dict(what="loop", dim=D, cells=[2, 2] if D == 2 else [4, 4, 1], refine=1 if D == 2 else 0, p=2 if D == 2 else 1, stencil="D2Q9" if D == 2 else "D3Q19", N=410, thr=thr, off=True, dir="a%d%d%g" % (D, a, thr), flow="slide", along=a, u0=0.1,
                             **({} if D == 2 else dict(bc="PPP", size=[1, 1, 1])))])
    for k, start in enumerate([37, 100, 150]):
        d = "k%d" % k
        b = dict(what="loop", cells=[2, 2], refine=1, p=2, thr=2e-3, dir=d, u0=0.1)
        scn.append([dict(b, N=start, chk=start, thr=1e-30), dict(b, N=600, clean=False, restart=start)])
    if not c.thorough:
        keep = [s for s in scn if s[0]["dir"][0] != "d"]
        ds = [s for s in scn if s[0]["dir"][0] == "d"]
        c.rng.shuffle(ds)
        scn = ds[:36] + keep
    c.sample(scn[0])
    c.conform(exe, "RunLoopTrace", scn, consts="Period = 100", invariants=INV, what="run loop")
    c.assumptions.append("the velocity change seen by the monitor at multiples of 100 iterations decides convergence")

if __name__ == "__main__":
    vlib.main("P01", body)
