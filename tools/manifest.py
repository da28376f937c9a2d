"""Writes MANIFEST.json from harness/checks.py and tools/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from harness.checks import CHECKS
import props

NOTE = ("Exhaustive TLC exploration of the specification on the small models listed in the evidence; every recorded call or "
        "history of the real code (enumerated small inputs, seeded random larger ones, behaviours generated by TLC) is "
        "accepted or rejected by TLC. Assumes the recorder reports calls faithfully and trusts TLC; inputs outside the "
        "recorded domains are not covered.")
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [], "not_applicable": [],
    "notes": "TLA+ specifications in spec/, recorder and drivers in harness/, entry point run.py. No hooks in /repo are needed: "
             "the library is single threaded and every public call is observed from outside.",
}
for p in props.P:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
            "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
            "technique": c.get("technique", "TLA+ specification model checked with TLC; TLC trace validation of recorded calls of the real code"),
            "level": "model_checking", "level_note": c.get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
