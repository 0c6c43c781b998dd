#!/usr/bin/env python3
"""P05: configuration values are kept, validated and survive a file round trip."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

def op(a):
    a = dict(a)
    if isinstance(a.get("v"), list):
        a["vs"] = a.pop("v")
    for k in a:
        if k != "vs":
            a[k] = str(a[k])
    return a

TEXT = {"CFL": ("General", "CFL"), "Stencil": ("General", "Stencil"), "Steps": ("Stop condition", "Number of time steps"),
        "OutputDir": ("Output", "Output directory"), "Theta": ("Advection/Theta method", "Theta"), "Verbosity": ("Output", "Command line verbosity"),
        "Prandtl": ("General", "Prandtl"), "FilterNc": ("Filtering/Filter parameters", "Exponential Nc")}

def by_hand(n, v, f):
    sec, key = TEXT[n]
    secs = sec.split("/")
    if f == "text":
        return "".join("subsection %s\n" % x for x in secs) + "set %s = %s\n" % (key, v) + "end\n" * len(secs)
    enc = lambda x: "".join(c if c.isalnum() else "_%02x" % ord(c) for c in x)
    return '<?xml version="1.0"?>\n<ParameterHandler>' + "".join("<%s>" % enc(x) for x in secs) + "<%s><value>%s</value></%s>" % (
        enc(key), v, enc(key)) + "".join("</%s>" % enc(x) for x in reversed(secs)) + "</ParameterHandler>\n"

def body(c):
    c.model("ConfigModel", workers=8, must_cover=["MSet", "MSave", "MLoad", "MCtor"], extra=())
    r = c.tlc("ConfigModel", cfg=vlib.SPEC + "/ConfigGen.cfg", simulate=400 if c.thorough else 60, depth=16)
    hists = vlib.emitted(r["out"])
    table = vlib.emitted(r["out"], "##")[0]
    assert len(hists) > 20 and len(table) > 60
    rng = c.rng
    scn = [{"ops": [op(a) for a in h]} for h in hists]
    # every setting with every value of the model, in random order, each followed by everything else
    sets = [dict(op="set", n=n, v=v) for n, t in table.items() if t["settable"] for v in t["vals"]]
    # values from inside and outside of the ranges
    for n, t in table.items():
        if t["kind"] in ("real", "int") and t["settable"]:
            lo, hi = float(t["lo"]), float(t["hi"])
            for _ in range(30 if c.thorough else 3):
                x = rng.choice([rng.uniform(max(lo, -1e3), min(hi, 1e3)), max(lo, 1e-9) * 10 ** rng.uniform(0, 5)])
                y = rng.choice([lo - abs(rng.gauss(0, 1)) - 1e-3, hi + 1 + abs(rng.gauss(0, 3))])
                for z in (x, y):
                    z = repr(z) if t["kind"] == "real" else str(int(z // 1))
                    if abs(float(z)) < 1e300:
                        sets.append(dict(op="set", n=n, v=z))
    for _ in range(20 if c.thorough else 6):
        sets.append(dict(op="set", n="WallCoordinates", v=[repr(rng.uniform(-5, 5)) for _ in range(rng.randint(0, 5))]))
        sets.append(dict(op="set", n="OutputDir", v="/" + "".join(rng.choice("abz09_-./ ") for _ in range(9)) + "x"))
        e = [rng.uniform(1, 1000), rng.uniform(0, 1), rng.uniform(0, 10), rng.uniform(0, 10), rng.uniform(0, 1e-3), rng.uniform(0, 1e-3)]
        k = rng.randrange(10)
        if k == 0: e[0] = 0.5
        if k == 1: e[1] = 1.5
        if k == 2: e[1] = -.5
        sets.append(dict(op="embedded", v=[repr(x) for x in e]))
    for e in ([0.5, .5, 1, 2, 1e-3, 1e-4], [2, 1.5, 1, 2, 1e-3, 1e-4], [2, .5, 1, 2, 1e-3, 1e-4]):
        sets.append(dict(op="embedded", v=[repr(float(x)) for x in e]))
    rng.shuffle(sets)
    for k in range(0, len(sets), 25):
        ops = [op(a) for a in sets[k:k + 25]]
        f = rng.choice(["xml", "text"])
        ops += [op(dict(op="save", k=1, f=f)), op(dict(op="save", k=2, f="xml")), op(dict(op="fresh")), op(dict(op="load", k=1, f=f)), op(dict(op="ctor", k=2, f="xml"))]
        scn.append({"ops": ops})
    # what is consistent
    for t in table["TimeIntegrator"]["vals"]:
        for d in ("NONE", "DOPRI", "FORWARD_EULER"):
            for m, g in (("BGK_MULTIPHASE", "NO_FORCING"), ("BGK_MULTIPHASE", "GUO"), ("BGK_STANDARD", "NO_FORCING"), ("MRT_STANDARD", "SHIFTING_VELOCITY")):
                if t != "99":
                    scn.append({"ops": [op(dict(op="set", n=n, v=v)) for n, v in (("TimeIntegrator", t), ("DealIntegrator", d), ("Collision", m), ("Forcing", g))]
                                + [op(dict(op="consistent"))]})
    # files written by hand
    for n, v in (("CFL", "0.7"), ("CFL", "-1"), ("CFL", "abc"), ("Stencil", "D3Q19"), ("Stencil", "D3Q20"), ("Steps", "12"), ("Steps", "0"), ("Steps", "1.5"),
                 ("OutputDir", "/x/y"), ("Theta", "0.25"), ("Theta", "1.25"), ("Verbosity", "8"), ("Verbosity", "9"), ("FilterNc", "3"), ("FilterNc", "51")):
        for f in ("xml", "text"):
            first = rng.choice(sets)
            w = dict(op="write", n=n if v not in ("abc", "1.5") else "", v=v, k=3, f=f)
            ops = [op(first), dict(op(w), body=by_hand(n, v, f)), op(dict(op="load", k=3, f=f)), op(dict(op="fresh")), op(dict(op="load", k=4, f=f)), op(dict(op="fresh"))]
            if f == "xml":
                ops += [op(dict(op="ctor", k=3, f="xml")), op(dict(op="fresh"))]
            scn.append({"ops": ops})
    exe = c.build("h_config")
    c.conform(exe, "ConfigTrace", scn, what="settings")
    two = [{"ops": [op(dict(op="set", n="UserInteraction", v=u)), op(dict(op="consistent"))]} for u in ("true", "false")]
    c.conform(exe, "ConfigTrace", two, what="two processes", np=2, tenv={"NP": "2"}, selftest=False)
    c.sample(scn[0])
    c.extra["settings"] = len(table)
    c.extra["assignments"] = len(sets)

vlib.main("P05", body)
