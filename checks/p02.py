#!/usr/bin/env python3
"""P02: every output file that is due is written, and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

INV = ["ClockRuns", "SolutionsComplete", "CheckpointsComplete", "TableComplete", "Silent", "LastStateKept"]

def chains(c, gen, count):
    """Scenarios from the model: spread over intervals, reasons for stopping, fresh and resumed runs."""
    c.rng.shuffle(gen)
    classes = {}
    for g in gen:
        if g["why"][2]:
            continue
        cf = g["cfg"]
        k = (cf["sol"] > 10, cf["chk"] > 10, cf["tab"] > 10, cf["off"], cf["start"] > 0, tuple(g["why"]),
             cf["sol"], g["stopped"] % max(1, min(cf["sol"], 10)), g["stopped"] % max(1, min(cf["chk"], 10)))
        classes.setdefault(k, []).append(cf)
    order = sorted(classes)
    c.rng.shuffle(order)
    res = []
    for k in order[:count]:
        cf = classes[k][0]
        n = len(res)
        d = "d%d" % n
        b = dict(what="output", cells=[2, 2], refine=1, p=2, dir=d)
        if n % 6 == 1:
            b.update(adv="SEDG", integrator="RK5")
        if n % 6 == 3:
            b.update(dim=3, cells=[2, 2, 2], size=[1, 1, 1], bc="PPP", refine=0, p=1, stencil=["D3Q19", "D3Q15", "D3Q27"][n % 3])
        if n % 6 == 5:
            b.update(bench=True)
        if n % 6 == 4: # with energy transport
            b.update(gas=True, stencil="D2Q25H", eq="QUARTIC", p=1 + n % 3)
        r = dict(b, N=cf["N"], sol=cf["sol"], tab=cf["tab"], chk=cf["chk"], off=cf["off"])
        if cf["end"] < 1999999999:
            r["end"] = cf["end"]
        if cf["start"]:
            first = dict(b, N=cf["start"] + n % 2, sol=2, tab=1, chk=cf["start"], off=False)
            res.append([first, dict(r, clean=False, restart=cf["start"])])
        else:
            res.append([r])
    return res

def body(c):
    r = c.model("RunLoopModel", env={"EMIT": "100"}, workers=8, must_cover=["Start", "Step", "End"])
    gen = vlib.emitted(r["out"])
    gen.sort(key=str)
    exe = c.build("h_solver")
    scn = chains(c, gen, 200 if c.thorough else 64)
    # the iteration numbers users meet: three digits, large intervals
    scn.append([dict(what="output", cells=[2, 2], refine=0, p=1, dir="long", N=123, sol=50, tab=30, chk=100)])
    scn.append([dict(what="output", cells=[2, 2], refine=0, p=1, dir="edge", N=12, sol=100000000, tab=5, chk=100000000)])
    scn.append([dict(what="output", cells=[2, 2], refine=1, p=2, dir="conv", N=1000, sol=90, tab=70, chk=110, thr=1e-3, u0=0.1)])
    scn.append([dict(what="output", cells=[2, 2], refine=0, p=1, dir="bench", N=7, sol=3, tab=2, chk=4, bench=True)])
    c.sample(scn[0])
    c.sample(scn[-1])
    c.conform(exe, "RunLoopTrace", scn, consts="Period = 100", invariants=INV, what="output schedule")
    # several processes: a piece per process and one master file
    for np in ((2, 3) if c.thorough else (2,)):
        c.conform(exe, "RunLoopTrace", chains(c, gen, 24 if c.thorough else 8), consts="Period = 100", invariants=INV,
                  what="output schedule, %d processes" % np, np=np, groups=2, selftest=False)

if __name__ == "__main__":
    vlib.main("P02", body)
