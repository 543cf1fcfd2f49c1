#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that the harness has."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
have = subprocess.run([f"{V}/harness/target/debug/hpp-verif", "list"], capture_output=True, text=True, check=True).stdout.split()
NOTES = json.load(open(f"{V}/tools/notes.json"))
TRUST = " Sampling, not proof: the assurance is that of the generated cases (counted in the evidence file). Trusted: the reference code in /verif/harness/src, the Rust toolchain, proptest's random source."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech, note = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh run {i} quick",
            "thorough_cmd": f"./check.sh run {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": "exploration",
            "level_note": note + TRUST,
        })
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: everything the checks observe is public. ./check.sh replay FILE runs one replay file.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
