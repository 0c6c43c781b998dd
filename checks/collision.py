"""Scenarios for the collision specification, shared by P07, P11, P21 and P22."""
ISO = ([(s, "BGK_STANDARD", "BGK_EQUILIBRIUM") for s in "D2Q9 D3Q13 D3Q15 D3Q19 D3Q21 D3Q27 D3V27 D3Q45 D3Q77".split()]
       + [(s, "BGK_STANDARD", "QUARTIC_EQUILIBRIUM") for s in "D2Q9 D2Q25H D2Q19H D2Q19V D3Q27 D3V27 D3Q45 D3Q77".split()]
       + [(s, "BGK_REGULARIZED", "BGK_EQUILIBRIUM") for s in "D2Q9 D3Q15 D3Q19 D3Q27".split()])
MRT = [("D2Q9", "DELLAR_D2Q9", "RELAX_FULL"), ("D2Q9", "LALLEMAND_D2Q9", "RELAX_FULL"), ("D2Q9", "DELLAR_D2Q9", "DELLAR_RELAX_ONLY_N"),
       ("D3Q19", "DHUMIERES_D3Q19", "RELAX_FULL"), ("D3Q19", "DHUMIERES_D3Q19", "RELAX_DHUMIERES_PAPER")]
TWO_BGK = [(s, "BGK_STANDARD", "BGK_EQUILIBRIUM") for s in "D2Q25H D2Q19H".split()]
TWO = [(s, "BGK_STANDARD", "QUARTIC_EQUILIBRIUM") for s in "D2Q25H D2Q19H D2Q19V D3Q45 D3Q77".split()]

def models():
    """All isothermal models there are."""
    for s, c, e in ISO:
        yield dict(set=s, scheme=c, eq=e)
    for s, b, m in MRT:
        yield dict(set=s, scheme="MRT_STANDARD", basis=b, mode=m)

def params(rng, dim, **kw):
    """Random state and parameters of a node."""
    d = dict(scaling=rng.choice([1, 1, round(rng.uniform(0.3, 8), 4)]), seed=rng.randrange(10**6),
             nu=round(10 ** rng.uniform(-4, 0), 6), cfl=round(rng.uniform(0.1, 4), 3),
             rho=round(10 ** rng.uniform(-1, 1), 4), amp=round(rng.uniform(0.02, 0.6), 3))
    d["u"] = [round(rng.uniform(-0.15, 0.15) * d["scaling"], 5) for _ in range(dim)]
    d.update(kw)
    return d

def dim(s):
    return 3 if "D3" in s else 2

def force(rng, d):
    """A force of moderate strength."""
    return [round(rng.uniform(-1, 1) * d["rho"] * d["scaling"] ** 2, 5) for _ in range(dim(d["set"]))]

def settle(d):
    """Parameters with which repeated collisions converge quickly whatever the mesh: tau of the order of 1."""
    d["nu"] = round(0.07 * d["scaling"] * d["cfl"], 8)
    d["passes"] = 1800 if d.get("mode") == "RELAX_DHUMIERES_PAPER" else 150
    return d
