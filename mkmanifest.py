#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, subprocess, sys
LEVEL = {"C11": "fault_enumeration", "C12": "fault_enumeration", "C13": "fault_enumeration"}
TECH = json.load(open("/verif/techniques.json"))
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
src = [l.split()[0] for l in hooks.splitlines() if "grenad_verif" in l]
checks, na = [], []
for p in props:
    if p not in TECH:
        na.append({"property": p, "reason": "not claimed"})
        continue
    t = TECH[p]
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick bash run.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": t["technique"],
        "level": LEVEL.get(p, "model_checking"),
        "level_note": t["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash run.sh --build",
    "hooks": {"guard": "cfg(grenad_verif)", "enable": "RUSTFLAGS=\"--cfg grenad_verif\" (set by run.sh)", "source_commits": src},
    "checks": checks,
    "not_applicable": na,
    "notes": "run.sh builds mc/ (harness crate, path dependency on /repo) against the current tree and runs one check; DESIGN.md describes each check; known_findings.txt lists repaired defects.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
