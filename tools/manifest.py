#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of decided properties (dst props)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
src = open(f"{V}/sim/src/props.rs").read()
claimed = re.findall(r'"(C\d\d)"', re.search(r'pub const PROPS.*?;', src, re.S).group(0))
notes = json.load(open(f"{V}/tools/notes.json"))
checks = []
for p in props:
    if p["id"] not in claimed: continue
    n = notes.get(p["id"], {})
    checks.append({
        "property": p["id"],
        "quick_cmd": f"sim/check.sh {p['id']} quick",
        "thorough_cmd": f"sim/check.sh {p['id']} thorough",
        "technique": n.get("technique", "deterministic simulation with fault injection, seeded search"),
        "level": "exploration",
        "level_note": n.get("note", "Seeded search over schedules and faults; absence of a violation is evidence, not proof."),
    })
na = [{"property": p["id"], "reason": notes.get(p["id"], {}).get("na", "machinery not built yet")} for p in props if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "sim/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the harness in /verif/target against /repo's current tree (content hash decides) and runs seeded simulations on all cores. sim/replay.sh FILE re-executes a recorded violation."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
