#!/usr/bin/env python3
"""P10: every velocity set is a symmetric quadrature, whatever its scaling."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

SETS = "D2Q9 D2Q19H D2Q19V D2Q25H D3Q13 D3Q15 D3Q19 D3Q21 D3Q27 RD3Q27 D3V27 D3Q45 D3Q77".split()

def body(c):
    exe = c.build("h_stencil")
    chains = []
    for n in SETS:
        sc = [1, 2.5, 0.1, 1.7320508075688772, 100] + [round(c.rng.uniform(0.01, 50), 6) for _ in range(30 if c.thorough else 2)]
        chains.append([dict(set=n, scaling=s) for s in sc])
    chains.append([dict(set="D2Q777", scaling=s, basis=False) for s in ([1, 3.3, 0.2] if c.thorough else [1, 3.3])])
    c.sample(chains[0])
    c.conform(exe, "StencilTrace", chains, what="velocity sets", mem="3g")

if __name__ == "__main__":
    vlib.main("P10", body)
