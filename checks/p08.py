#!/usr/bin/env python3
"""P08: ill-posed problems are refused before the first time step."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

def body(c):
    rng = c.rng
    c.model("BoundsModel", workers=8, must_cover=["MPeriodic", "MWall", "MCheck", "MRefine", "MSolve", "MEnd"])
    r = c.tlc("BoundsModel", cfg=vlib.SPEC + "/BoundsGen.cfg", simulate=4000 if c.thorough else 600, depth=12)
    hists = list({json.dumps(h, sort_keys=True): h for h in vlib.emitted(r["out"])}.values())
    rng.shuffle(hists)
    box = lambda h: dict(h, D=2, cells=[rng.randint(2, 3), rng.randint(2, 4)], size=[1, round(rng.uniform(.5, 2), 3)], skew=0.05 if h["skew"] else 0)
    for h in hists:
        if h["skew"]:
            h["_c"] = 3
    # histories with a solver run each in its own process; the others share one
    ends = [h for h in hists if h["ops"][-1]["op"] == "solve"][:400 if c.thorough else 60]
    goes = [h for h in hists if h["ops"][-1]["op"] != "solve"][:2000 if c.thorough else 250]
    assert len(ends) > 20 and len(goes) > 100, (len(ends), len(goes))
    goes = [box(h) for h in goes]
    # directed histories: complete descriptions of boxes, with one thing wrong or nothing
    kinds = ["wall", "bounce", "inflow", "open"]
    def complete(D, labels):
        ops = []
        for d in range(D):
            a, b = labels[2 * d], labels[2 * d + 1]
            if a != b and labels.count(a) == 1 and labels.count(b) == 1 and rng.random() < .6:
                if rng.random() < .5:
                    a, b = b, a
                ops.append(dict(op="periodic", a=a, b=b, dir=d))
            else:
                for x in {a, b}:
                    ops.append(dict(op="wall", kind=rng.choice(kinds) if rng.random() < .5 else "wall", id=x))
        rng.shuffle(ops)
        seen, res = set(), []
        for o in ops:   # a label can stand for several sides
            k = (o.get("a", o.get("id")), o.get("b", o.get("id")))
            if k not in seen:
                res.append(o)
            seen.add(k)
        return res
    n = 600 if c.thorough else 90
    for k in range(n):
        D = 3 if k % 4 == 3 else 2
        labels = rng.sample(range(6), 2 * D) if rng.random() < .75 else [rng.randrange(2 * D) for _ in range(2 * D)]
        ops = complete(D, labels)
        w = k % 6
        if w == 1 and len(ops) > 1:
            ops.pop(rng.randrange(len(ops)))
        if w == 2:
            free = [x for x in range(7) if x not in labels]
            ops.insert(rng.randrange(len(ops) + 1), dict(op="wall", kind="wall", id=rng.choice(free)))
        if w == 3:
            ops.insert(rng.randrange(len(ops) + 1), dict(op="wall", kind=rng.choice(kinds), id=rng.choice(labels)))
        if w == 4 and rng.random() < .4:
            ops.append(dict(op="refine"))
        if w == 5 and rng.random() < .4:
            d = rng.randrange(D)
            ops.insert(rng.randrange(len(ops) + 1), dict(op="periodic", a=labels[2 * d], b=labels[(2 * d + rng.choice([1, 2])) % (2 * D)], dir=d))
        ops.append(dict(op="check"))
        h = dict(labels=labels, skew=0, ops=ops, D=D, ids=7, cells=[rng.randint(1, 3) for _ in range(D)], size=[1] * D)
        goes.append(h)
        if k % 2 == 0 or c.thorough:
            e = dict(h, ops=ops + [dict(op="solve", adv=rng.choice(["SL", "DG"]))], cells=[rng.randint(2, 3) for _ in range(D)])
            ends.append(e)
    ends = [e if "D" in e else box(e) for e in ends]
    for h in goes + ends:
        if h["skew"]:
            h["cells"][1] = 3
    # the isothermal solver has no thermal walls
    ends = [e for e in ends if not any(o.get("kind") == "thermal" for o in e["ops"])]
    exe = c.build("h_bound")
    c.conform(exe, "BoundsTrace", goes, what="boundaries")
    c.conform(exe, "BoundsTrace", ends, what="problems", isolate=True)
    c.sample(goes[0])
    c.extra["problems_given_to_the_solver"] = len(ends)

vlib.main("P08", body)
