#!/usr/bin/env python3
"""P04: a crash never leaves a checkpoint that resumes into a wrong state."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

FLAVOURS = [
    dict(dim=2, stencil="D2Q9", cells=[2, 2], refine=1, p=2),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], refine=1, p=2, adv="SEDG"),
    dict(dim=3, stencil="D3Q19", cells=[2, 2, 2], size=[1, 1, 1], bc="PPP", refine=0, p=1),
    dict(dim=2, stencil="D2Q25H", cells=[2, 3], refine=0, p=2, eq="QUARTIC"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], refine=1, p=2, bc="PW"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], refine=1, p=2, _np=2),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], refine=1, p=3),
    dict(dim=3, stencil="D3Q15", cells=[2, 2, 2], size=[1, 1, 1], bc="PPP", refine=0, p=1),
]
JUNK = [
    ["checkpointG_9.stat", "checkpointG_9.data"],
    ["checkpoint_9.stat"],
    ["checkpoint_9.data"],
    ["checkpoint_9.stat.tmp", "checkpoint_9.data", "readme.txt"],
    ["checkpoint_abc.stat", "checkpoint_.stat", "checkpoint_9x.stat", "checkpoint_9x.data"],
    ["other_9.stat", "other_9.data", "results.stat", "9.stat", "xcheckpoint_9.stat", "xcheckpoint_9.data"],
    ["checkpoint_-9.stat", "checkpoint_-9.data", "checkpoint_ 9.stat", "checkpoint_9.stat.bak", "checkpoint_9.stat~"],
    ["checkpointG_9.stat", "checkpoint_9.data", "checkpoint_10.stat", "checkpointG_10.data"],
]

def body(c):
    c.model("CkptModel", workers=8, must_cover=["MBegin", "MFresh", "MResume", "MAdvance", "MVanish", "MData", "MAppear", "MEnd", "MRefuse", "MKill"])
    shim = c.shim()
    exe = c.build("h_solver")
    per = 40 if c.thorough else 9
    chains = []
    for n, fl in enumerate(FLAVOURS):
        np = fl.get("_np", 1)
        base = dict(what="state", cfl=0.4, group="A%d" % n, _env={"LD_PRELOAD": shim}, **fl)
        other = dict(base, group="B%d" % n, u0=0.03)
        ops = 34 if np == 1 else 24    # operations on files per checkpoint, roughly
        def kill(sc, at, half=False, rank=0):
            e = dict(sc["_env"], VT_KILL_AT=str(at), VT_KILL_RANK=str(rank))
            if half:
                e["VT_KILL_HALF"] = "1"
            return dict(sc, _env=e)
        # the uninterrupted runs: also resumed ones must agree with them later on
        chain = [dict(base, N=8, dir="t%d" % n), dict(other, N=8, dir="s%d" % n)]
        for k in range(per if np == 1 else per // 3 + 1):
            d = "k%d-%d" % (n, k)
            half = c.rng.random() < 0.4
            kind = k % 3
            chk = c.rng.choice([1, 2, 3])
            at = c.rng.randrange(1, ops * (6 // chk) + 3)
            if k % 4 == 1:  # around the end of a checkpoint
                at = ops * c.rng.randrange(1, 6 // chk + 1) + c.rng.randrange(-9, 4)
            if kind == 2:   # a complete series of another run is there already
                chain.append(dict(other, N=6, chk=c.rng.choice([1, 2]), dir=d))
            chain.append(kill(dict(base, N=6, chk=chk, dir=d, clean=kind != 2), at, half, c.rng.randrange(np)))
            back = dict(base, N=7, chk=2, dir=d, clean=False, restart=1)
            if kind == 1:   # killed again while it carries on
                chain.append(kill(back, c.rng.randrange(1, ops + 5), c.rng.random() < 0.4))
            if k % 2:
                back["junk"] = JUNK[(n + k) % len(JUNK)]
            chain.append(back)
            if k % 3 == 0:
                chain.append(dict(base, N=8, chk=4, dir=d, clean=False, restart=1))
            chain.append(dict(base, N=8, chk=4, dir=d, clean=False, restart=c.rng.choice([2, 3, 4, 6])))
        # junk alone is not a checkpoint
        for k, j in enumerate(JUNK if n == 0 or c.thorough else JUNK[n:n + 1]):
            chain.append(dict(base, N=8, dir="j%d-%d" % (n, k), restart=1, clean=True, junk=j))
        chains.append(chain)
    c.sample(chains[0][:4])
    c.conform(exe, "CkptTrace", chains, invariants=["Recognised"], isolate=True, what="killed and resumed runs")

if __name__ == "__main__":
    vlib.main("P04", body)
