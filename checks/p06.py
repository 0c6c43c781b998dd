#!/usr/bin/env python3
"""P06: command line arguments override exactly what they name."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

def argv(args, rng):
    r = []
    for a in args:
        if a["n"] == "":
            r.append(a["v"])
        elif a["t"] == "none":
            r.append("--" + a["n"])
        elif rng.random() < .5 or a["v"].startswith("-"):
            r.append("--%s=%s" % (a["n"], a["v"]))
        else:
            r += ["--" + a["n"], a["v"]]
    return r

OWN = [dict(op="define", kind="arg", n="mine", t="int", d=""), dict(op="define", kind="default", n="ratio", t="real", d="0.5"),
       dict(op="define", kind="arg", n="title", t="text", d=""), dict(op="define", kind="default", n="label", t="text", d="none"),
       dict(op="define", kind="default", n="count", t="int", d="3"), dict(op="define", kind="flag", n="quick", t="none", d=""),
       dict(op="define", kind="pos", n="first", t="text", d=""), dict(op="define", kind="pos", n="second", t="real", d="")]
READS = [dict(op="has", n=n) for n in ("mine", "ratio", "quick", "cfl", "verbose", "nothing")] + [
    dict(op="get", n=n, t=t) for n, t in (("mine", "int"), ("ratio", "real"), ("label", "text"), ("count", "int"), ("title", "text"), ("first", "text"),
                                          ("second", "real"), ("ratio", "int"), ("count", "text"), ("cfl", "real"))]

def body(c):
    rng = c.rng
    c.model("CliModel", workers=8, must_cover=["MLine", "MDefine", "MImport", "MHas", "MGet", "MApply"], timeout=800)
    r = c.tlc("CliModel", cfg=vlib.SPEC + "/CliGen.cfg", simulate=3000 if c.thorough else 400, depth=20)
    hists = vlib.emitted(r["out"])
    pool = vlib.emitted(r["out"], "##")[0]
    assert len(hists) > 20 and len(pool) > 80, (len(hists), len(pool))
    hists = list({json.dumps(h, sort_keys=True): h for h in hists}.values())
    rng.shuffle(hists)
    hists = hists[:3000 if c.thorough else 300]
    scn = [{"args": h["args"], "argv": argv(h["args"], rng), "ops": h["ops"]} for h in hists]
    # every argument alone, and random command lines of several, on top of settings made by the program
    lines = [[a] for a in pool]
    good = [a for a in pool if a["v"] not in ("other", "rk5", "abc", "x") and a["n"] not in ("nonsense", "help", "standard-lbm", "standard-lbm-with", "integrator-id")]
    for _ in range(2000 if c.thorough else 150):
        k = rng.randint(2, 7)
        src = good if rng.random() < .75 else pool
        names, line = set(), []
        for _ in range(k):
            a = rng.choice(src)
            if a["n"] and a["n"] in names and rng.random() < .9:
                continue
            names.add(a["n"])
            line.append(a)
        rng.shuffle(line)
        lines.append(line)
    # all pairs that can contradict each other
    bundle = [a for a in pool if a["n"] in ("standard-lbm", "standard-lbm-with", "cfl", "order-fe", "streaming", "support-points")]
    lines += [[a, b] for a in bundle for b in bundle if a["n"] < b["n"] and "standard" in a["n"] + b["n"]]
    before = [dict(op="set", n="CFL", v="0.9"), dict(op="set", n="Order", v="5"), dict(op="set", n="OutputOff", v="true"), dict(op="set", n="Stencil", v="D3Q19"),
              dict(op="set", n="Collision", v="MRT_STANDARD"), dict(op="set", n="DealIntegrator", v="DOPRI"), dict(op="set", n="TimeIntegrator", v="OTHER"),
              dict(op="set", n="Initialization", v="GRADIENTS"), dict(op="set", n="EndTime", v="17.5"), dict(op="set", n="MRTRelaxation", v="DELLAR_RELAX_ONLY_N"),
              dict(op="set", n="Regularization", v="ENTROPY_MAXIMIZATION"), dict(op="set", n="Verbosity", v="3"), dict(op="set", n="SupportPoints", v="GAUSS_CHEBYSHEV_POINTS")]
    for line in lines:
        ops = list(OWN)
        rng.shuffle(ops)
        ops += rng.sample(before, rng.randint(2, len(before))) + [dict(op="import")] + rng.sample(READS, 5) + [dict(op="apply")]
        scn.append({"args": line, "argv": argv(line, rng), "ops": ops})
    exe = c.build("h_cli")
    c.conform(exe, "CliTrace", scn, what="command lines")
    c.sample(scn[0])
    c.sample(scn[-1])
    c.extra["command_lines"] = len(scn)

vlib.main("P06", body)
