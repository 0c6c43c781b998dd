#!/usr/bin/env python3
"""P14: populations are independent vectors of one common layout."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

ACTS = ["MMake", "MCopy", "MAssign", "MWrite", "MUpdate", "MSetF0", "MSetStream", "MFrom", "MScale", "MEquals", "MBeyond"]

def body(c):
    c.model("DistrModel", workers=8, must_cover=ACTS)
    r = c.tlc("DistrModel", cfg=vlib.SPEC + "/DistrGen.cfg", simulate=4000 if c.thorough else 500, depth=16)
    hists = list({json.dumps(h, sort_keys=True): h for h in vlib.emitted(r["out"])}.values())
    assert len(hists) > 100, len(hists)
    used = {o["op"] for h in hists for o in h}
    assert {"make", "makedg", "remake", "copy", "assign", "write", "writestream", "update", "compress", "setf0", "setstream", "fromvec", "scale",
            "equals", "beyond", "beyondghost"} <= used, used
    c.rng.shuffle(hists)
    sc = [{"ops": h} for h in hists[:2500 if c.thorough else 300]]
    exe = c.build("h_distr")
    c.conform(exe, "DistrTrace", sc, what="populations", consts="N = 6")
    for np in (2, 3):
        c.conform(exe, "DistrTrace", sc[:300 if c.thorough else 40], what="populations on %d processes" % np, np=np, consts="N = 6", groups=2, selftest=False)
    c.sample(sc[0])

vlib.main("P14", body)
