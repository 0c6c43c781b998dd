#!/usr/bin/env python3
"""P09: periodic boundaries pair every boundary cell with its translated image."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

def body(c):
    rng = c.rng
    sc = []
    def box(D, per, cells, **kw):
        d = dict(do="pairs", D=D, cells=cells, size=[round(rng.uniform(.3, 4), 4) for _ in range(D)], origin=[round(rng.uniform(-2, 2), 4) for _ in range(D)],
                 periodic=per, refine=0, dg=rng.random() < .5, again=rng.random() < .3, seed=rng.randrange(10**6),
                 swap="".join(rng.choice("-S") for _ in range(D)))
        d.update(kw)
        return d
    for D, top in ((2, 4 if not c.thorough else 6), (3, 2 if not c.thorough else 3)):
        for per in map("".join, itertools.product("PN", repeat=D)):
            if "P" not in per:
                continue
            for cells in itertools.product(range(1, top + 1), repeat=D):
                if rng.random() < (1 if D == 2 else .5):
                    sc.append(box(D, per, list(cells), bend=rng.choice([0, 0, .5])))
            for ref in range(1, (4 if c.thorough else 3) if D == 2 else 2):
                sc.append(box(D, per, [rng.randint(1, 3 if D == 2 else 2) for _ in range(D)], refine=ref))
            # local refinement: along the boundary (matching) or across (not matching)
            for loc in [[a] for a in range(D)] + [[0, 1], [1, 1]]:
                for cells in ([2] * D, [4, 2, 2][:D]):
                    sc.append(box(D, per, cells, local=loc, refine=rng.randint(0, 1 if D == 2 else 0)))
            if per[0] == "P":
                for s in (.05, -.02, 1e-3):
                    sc.append(box(D, per, [rng.randint(1, 3), 3] + [2] * (D - 2), skew=s))
                    sc[-1]["size"][1] = 1.0
    rng.shuffle(sc)
    exe = c.build("h_bound")
    c.conform(exe, "PeriodicTrace", sc, what="periodic boundaries", mem="3g")
    par = [s for s in sc if not s.get("local") and not s.get("skew")][:60 if c.thorough else 16]
    for np in (2, 3):
        c.conform(exe, "PeriodicTrace", par[np - 2::2], what="on %d processes" % np, np=np, groups=2, selftest=False)
    c.sample(sc[0])

vlib.main("P09", body)
