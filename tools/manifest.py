"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS

NOTE = ("Exhaustive only for the small models (where the check has one). For the library itself: "
        "every one of the recorded executions is replayed, call by call, on the TLA+ machine, and "
        "the bytes produced are read by the reader that is part of the specification, so the "
        "property is decided for the executions explored and no others. Trusted: TLC, the "
        "specification's reading of ISO 32000, and that the harness calls what it logs.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "The check is not built yet."})
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": ("TLA+ model checking with TLC, and " if c.get("models") else "") +
                     "trace validation of recorded API executions against a TLA+ specification with TLC",
        "level": "model_checking",
        "level_note": c.get("note", "") + (" " if c.get("note") else "") + NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ with TLC. No hooks in /repo are needed: the public API exposes everything that is observed.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
