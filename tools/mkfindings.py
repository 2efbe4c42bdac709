#!/usr/bin/env python3
"""KNOWN_FINDINGS.json: the findings below, and one fixed entry per fix: commit of /repo (property by commit subject)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = {
 "keep heap-reachable strings": "P04", "table filter drops": "P02", "push on a list": "P01", "pop and shift": "P01", "list at and put": "P01",
 "remove and delete": "P01", "list slice copied": "P01", "list sort by identity": "P11", "list sort put negative": "P11", "list sort crashed": "P11",
 "list cmp returned": "P01", "map results were lost": "P05", "formatted strings": "P04", "bytes clone": "P03", "bytes append": "P03", "string ord": "P03",
 "string slice, at": "P03", "string at the end": "P03", "string of a large": "P10", "the JIT computed": "P10", "integer + - * **": "P10",
 "the interpreter truncated": "P10", "the else branch": "P06", "a list receiving": "P15", "integer literals": "P15", "calls with defaults": "P08",
 "the JIT jumped wrongly": "P06", "the JIT clobbered": "P08", "the JIT detached": "P07", "the JIT took the defaults": "P08",
 "the JIT overflowed its jump": "P06", "programs of more than": "P05", "<=> gave": "P10", "unicode escapes at the limits": "P15",
}
exec(open(os.path.join(root, "tools", "findings.py")).read())
log = subprocess.run(["git", "-c", "safe.directory=*", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    ps = [p for k, p in prop.items() if s.startswith(k)]
    assert len(ps) == 1, (s, ps)
    fixed.append("fixed: property=%s %s %s" % (ps[0], h, s))
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(root, "KNOWN_FINDINGS.json"), "w"), indent=1)
print(len(findings), "findings", len(fixed), "fixed")
