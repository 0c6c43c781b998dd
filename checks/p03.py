#!/usr/bin/env python3
"""P03: a resumed run continues exactly where the checkpoint was taken."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from p12 import box

FLAVOURS = [
    dict(dim=2, stencil="D2Q9", cells=[2, 2]),
    dict(dim=2, stencil="D2Q9", cells=[2, 3], adv="SEDG", integrator="RK5"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], stretch=0.03, scaling=1.7, flow="shear"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], force=[1e-3, 2e-3], forcing="SHIFT"),
    dict(dim=2, stencil="D2Q9", cells=[3, 2], collision="MRT"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], bc="PW"),
    dict(dim=2, stencil="D2Q25H", cells=[2, 2], eq="QUARTIC"),
    dict(dim=2, stencil="D2Q19V", cells=[2, 2], eq="QUARTIC"),
    dict(dim=3, stencil="D3Q19", cells=[2, 2, 2], size=[1, 1, 1], bc="PPP"),
    dict(dim=3, stencil="D3Q15", cells=[2, 2, 2], size=[1, 2, 1], bc="PPP", adv="SEDG", integrator="RK5"),
    dict(dim=3, stencil="D3Q27", cells=[2, 2, 2], size=[1, 1, 1], bc="PWP"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], force=[1e-3, 2e-3], forcing="EXACT"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], filter=2),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], adv="SEDG", integrator="THETA"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], collision="REG"),
    dict(dim=2, stencil="D2Q19H", cells=[2, 2], eq="QUARTIC"),
    dict(dim=3, stencil="D3Q21", cells=[2, 2, 2], size=[1, 1, 1], bc="PPP"),
    dict(dim=2, stencil="D2Q9", cells=[2, 2], bc="BP"),
    dict(dim=3, stencil="D3Q45", cells=[2, 2, 2], size=[1, 1, 1], bc="PPP"),
]
P0 = {2: 2, 3: 1}

def scenario(fl, ask, k, hist):
    b = dict(what="state", cfl=0.4, **fl)
    lvl = ask["level"] - 1 + (1 if fl["dim"] == 2 else 0)
    p = P0[fl["dim"]] + ask["order"] - 2
    b.update(refine=lvl, p=p, N=ask["N"], chk=ask["chk"], restart=ask["restart"], clean=ask["clean"], dir="d%d" % k)
    return b

def name(fl, b, resumed_from):
    """Runs of the same problem on the same mesh are one group; one that is interpolated from a coarser
    checkpoint is a group of its own."""
    return "%s-%d-%d%s" % (b["stencil"], b["refine"], b["p"], resumed_from)

def body(c):
    c.model("RestartModel", workers=8, must_cover=["MBegin", "MFresh", "MResume", "MAdvance", "MEnd", "MRefuse", "MLeave"])
    r = c.tlc("RestartGen", simulate=3000, depth=80)
    hists = vlib.emitted(r["out"])
    # only histories in which something is resumed; varied ones first
    def value(h):
        return (len({(a["restart"], a["N"], a["chk"]) for a in h if a["restart"]}) + sum(a["restart"] > 0 and not a["clean"] for a in h)
                + len({a["group"] for a in h}))
    hists = [h for h in hists if any(a["restart"] for a in h) and h[0]["chk"] < 10]
    hists.sort(key=lambda h: -value(h))
    hists = hists[:200]
    c.rng.shuffle(hists)
    exe = c.build("h_solver")
    chains = []
    for n in range(len(FLAVOURS) * (4 if c.thorough else 1) + (0 if c.thorough else 5)):
        fl = FLAVOURS[n % len(FLAVOURS)]
        h = hists[n % len(hists)]
        chain = []
        # what was written from which state decides which group a run belongs to: the specification of the
        # directory is followed here only to name the groups
        disk, cur = {}, None
        for a in h:
            s = scenario(fl, a, n, h)
            if s["clean"]:
                disk = {}
            src = s["restart"]
            if src == 1 and disk:
                src = max(disk)
            g = name(fl, s, "")
            if src and src in disk:
                lvl, order, grp = disk[src]
                if order == s["p"] and lvl <= s["refine"]:
                    g = grp if lvl == s["refine"] else "%s>%d@%d" % (grp, s["refine"], src)
                else:
                    g = None
            elif src:
                g = None
            s["group"] = "f%d:%s" % (n % len(FLAVOURS), g or "refused")
            chain.append(s)
            if g:
                st = src or 0
                for i in range(st + 1, s["N"] + 1):
                    if s["chk"] < 10 and (i % s["chk"] == 0 or i == s["N"]):
                        disk[i] = (s["refine"], s["p"], g)
        # the uninterrupted run, to the end, last: it has to agree with all that was seen before
        last = dict(what="state", cfl=0.4, refine=chain[0]["refine"], p=chain[0]["p"], N=7, dir="u%d" % n, **fl)
        last["group"] = "f%d:%s" % (n % len(FLAVOURS), name(fl, last, ""))
        chain.append(last)
        chains.append(chain)
    # a checkpoint of another velocity set is refused
    for n, (s1, s2) in enumerate([("D2Q9", "D2Q25H"), ("D2Q25H", "D2Q9"), ("D2Q19V", "D2Q19H")]):
        b = dict(what="state", cells=[2, 2], refine=1, p=2, dir="x%d" % n)
        chains.append([dict(b, stencil=s1, N=3, chk=3, group="x" + s1, eq="QUARTIC"),
                       dict(b, stencil=s2, N=5, restart=3, clean=False, group="x" + s2, eq="QUARTIC")])
    c.sample(chains[0])
    c.conform(exe, "RestartTrace", chains, invariants=["OnTrack"], isolate=True, what="resumed runs")
    finer(c)

def finer(c):
    """The fields a run starts from when it is resumed on the same or on a refined mesh."""
    rng, t = c.rng, c.thorough
    chains = []
    for i in range(60 if t else 14):
        D = 3 if i % 4 == 3 else 2
        d = box(rng, D, "PW", cells=[rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], order=rng.randint(1, 4) if D == 2 else 1, stencil=rng.choice(["D2Q9", "D2Q25H", "D2Q19V"] if D == 2 else ["D3Q15", "D3Q19", "D3Q27"]),
                nu=.1, cfl=.3, steps=2, field="trig", waves=1, famp=.05, u=[.05] * D, whole=True, files=True, solution=100, table=100, checkpoint=2, mode="base", tol="1e-11", dir="n%d" % i,
                advection=rng.choice(["SL", "SEDG"]) if D == 2 else "SL", refine=rng.randint(0, 1) if D == 2 else 0)
        d.pop("again", None), d.pop("labels", None)
        d["equilibrium"] = "QUARTIC_EQUILIBRIUM" if d["stencil"] in ("D2Q25H", "D2Q19V") else "BGK_EQUILIBRIUM"
        if i % 3 == 2:
            d["stretch"] = round(rng.uniform(.2, .6), 3)
        if d["advection"] == "SEDG":
            d.update(order=min(d["order"], 3), kind="P" * 4)
        n = i % 3 if D == 2 else rng.randint(0, 1)
        if i % 8 == 1:
            n = 3
            d.update(refine=0, stencil="D2Q9", equilibrium="BGK_EQUILIBRIUM")
        if n >= 2:
            d["order"] = min(d["order"], 4 - n)
        chains.append([d, dict(d, mode="finer", whole=False, finer=n, refine=d.get("refine", 0) + n, restart=2)])
    # not implemented (known finding)
    chains.append([dict(d), dict(d, mode="finer", whole=False, finer=0, restart=2, scaling=3 * d.get("scaling", 1), case="other scaling")])
    # two populations
    for i in range(6 if t else 2):
        s = rng.choice(["D2Q25H", "D2Q19H"])
        d = box(rng, 2, "P", cells=[2, 2], order=2, stencil=s, equilibrium="QUARTIC_EQUILIBRIUM", gamma=1.4, nu=.1, cfl=.3, steps=2, field="trig", waves=1, famp=.05, u=[.05] * 2, whole=True, files=True, solution=100, table=100,
                checkpoint=2, mode="base", tol="1e-11", dir="g%d" % i, case="two populations")
        d.pop("again", None), d.pop("labels", None)
        chains.append([d, dict(d, mode="finer", whole=False, finer=0, restart=2)])
        # temperature of the state that is resumed
        e = dict(d, case="temperature", dir="h%d" % i)
        chains.append([e, dict(e, mode="finer", whole=False, finer=0, restart=2, reheat=True)])
    exe = c.build("h_steady")
    for ch in chains:
        for d in ch:
            d["_timeout"] = 120
    c.conform(exe, "SteadyTrace", chains, isolate=True, what="fields of resumed runs", mem="3g", groups=4)

if __name__ == "__main__":
    vlib.main("P03", body)
