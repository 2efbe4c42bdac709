#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = "TLA+ model, TLC exhaustive + simulation, behaviours replayed into the real runtime"
checks = {}
na = {}
exec(open(os.path.join(root, "tools", "claims.py")).read())
import subprocess
hc = [l.split()[0] for l in subprocess.run(["git", "-c", "safe.directory=*", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
      if l.split(" ", 1)[1].startswith("verification hook")]
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "hooks": {"guard": "VERIF_GC_STRESS", "enable": "lib/build.py compiles the tree with -DVERIF_GC_STRESS; POTION_GC_EVERY=n[,phase] then collects at every n-th allocation",
               "source_commits": hc},
     "checks": [dict(property=i, quick_cmd="python3 checks/%s.py quick" % i, thorough_cmd="python3 checks/%s.py thorough" % i,
                     technique=checks[i][0], level="model_checking", level_note=checks[i][1], evidence_file="evidence/%s.json" % i)
                for i in ids if i in checks],
     "not_applicable": [dict(property=i, reason=na.get(i, "no check built for this property yet")) for i in ids if i not in checks],
     "notes": "One TLA+ module per area in spec/, one check per property in checks/, shared machinery in lib/ and drv/. "
              "The real code is driven through its public API, its command line tools and generated programs; one hook places collections at chosen allocations."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
