#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when its check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/checks/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(V + "/" + f):
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "python3 %s" % f, "thorough_cmd": "python3 %s --thorough" % f,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check yet: the specification does not cover this part so far")})
m = {"version": 1, "setup_cmd": "python3 bin/vbuild.py all",
     "hooks": {"guard": "NATRIUM_VERIF", "enable": "none needed: no hooks were added to the sources", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
