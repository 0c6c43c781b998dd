"""Scenarios for the collision classes one by one (harness h_model, specification Models)."""
SOUND = [(c, s) for c in ("BGKStandard", "BGKSteadyState") for s in ("D2Q9", "D3Q15", "D3Q19", "D3Q21", "D3Q27")] + \
        [("BGKStandardTransformed", "D2Q9"), ("BGKRegularized", "D2Q9"), ("MRTStandard", "D2Q9"), ("MRTEntropic", "D2Q9"), ("EntropicStabilized", "D2Q9"), ("EntropicStabilized", "D3Q19"),
         ("KBCStandard", "D2Q9"), ("KBCCentral", "D2Q9"), ("AM4", "D2Q9"), ("BDF2", "D2Q9")]
# classes no simulation runs and that are wrong (known_findings.txt)
WRONG = [("BGKStandardTransformed", "D3Q19"), ("BGKIncompressible", "D2Q9"), ("BGKRegularized", "D3Q19"), ("BGKRegularized", "D2Q9"), ("MRTEntropic", "D3Q19"), ("EntropicStabilized", "D3Q27"), ("KBCStandard", "D3Q15"), ("AM4", "D3Q19"), ("BDF2", "D3Q19")]
REFUSED = [("BGKIncompressible", "D3Q19"), ("BGKRegularized", "D3Q15"), ("MRTStandard", "D3Q19"), ("MRTEntropic", "D3Q15"), ("KBCStandard", "D3Q19"), ("KBCCentral", "D3Q15"), ("EntropicStabilized", "D3Q15")]

def params(rng, cl, st, **kw):
    D = 3 if st[1] == "3" else 2
    sc = rng.choice([1, 1, 2, round(10 ** rng.uniform(-.5, 1), 3)])
    dt = round(10 ** rng.uniform(-3, 0), 6)
    d = {"class": cl, "set": st, "scaling": sc, "dt": dt, "nu": float("%.5g" % (sc * sc / 3 * dt * 10 ** rng.uniform(-2, 1.5))), "rho": rng.choice([1, round(rng.uniform(.3, 3), 3)]),
         "u": [round(sc * rng.uniform(-.12, .12), 5) for _ in range(D)], "amp": rng.choice([.02, .1]), "seed": rng.randrange(10 ** 6), "nodes": 3, "times": 3 if cl in ("AM4", "BDF2") else 1}
    if rng.random() < .3:
        d["dt0"] = round(dt * rng.choice([.5, 2, 3.7]), 7)
    if cl == "BGKSteadyState":
        d["gamma"] = rng.choice([1, .5, round(rng.uniform(.1, 1), 3)])
    d.update(kw)
    return d

def free(rng, n):
    sc = []
    for cl, st in SOUND:
        for k in range(n):
            sc.append(params(rng, cl, st, equil=k % 3 == 2))
        if cl not in ("AM4", "BDF2"):
            sc.append(params(rng, cl, st, init=True))
    for s in sc:
        if s["class"] == "BGKRegularized":
            s["nu"], s["scaling"] = float("%.5g" % (s["nu"] / s["scaling"] ** 2)), 1
            s["u"] = [round(rng.uniform(-.12, .12), 5) for _ in s["u"]]
    sc += [params(rng, cl, st) for cl, st in REFUSED]
    return sc + [dict(params(rng, cl, st), case="class %s with %s" % (cl, st), scaling=2, dt=.1, dt0=.1, nu=.05, rho=2, amp=.1, nodes=1) for cl, st in WRONG]

def forced(rng, n):
    sc = []
    for cl, st, how in [("BGKStandard", "D2Q9", "SHIFTING_VELOCITY"), ("BGKStandard", "D3Q19", "SHIFTING_VELOCITY"), ("BGKStandard", "D2Q9", "EXACT_DIFFERENCE"), ("BGKStandard", "D2Q9", "GUO"), ("AM4", "D2Q9", "EXACT_DIFFERENCE")]:
        for k in range(n):
            d = params(rng, cl, st, forcing=how, equil=k % 3 == 2)
            if how != "SHIFTING_VELOCITY": # the functions behind the other two know no scaling
                d.update(scaling=1, nu=float("%.5g" % (d["nu"] / d["scaling"] ** 2)), u=[round(rng.uniform(-.12, .12), 5) for _ in d["u"]])
            d["force"] = [float("%.5g" % (rng.uniform(-.1, .1) * d["scaling"] / d["dt"])) for _ in d["u"]]
            sc.append(d)
    return sc
