"""Write MANIFEST.json from the checks that exist."""
import importlib  # run with /opt/venv/bin/python
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
NA = {
}
TECH = {
    "asan": "runtime monitoring with a reference model, AddressSanitizer and UndefinedBehaviorSanitizer",
    "tsan": "runtime monitoring with a reference model and ThreadSanitizer",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA or not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        continue
    m = importlib.import_module(pid.lower())
    tech = getattr(m, "TECHNIQUE", "runtime monitoring of executions against a reference model")
    checks.append(
        {
            "property": pid,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
            "technique": tech,
            "level": m.LEVEL,
            "level_note": getattr(m, "LEVEL_NOTE", "Real code is executed on generated inputs; the verdict covers the executions that were observed. " + m.RULE[0].upper() + m.RULE[1:] + "."),
            "evidence_file": "evidence/%s.json" % pid,
        }
    )
doc = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py rel asan tsan",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "The native engine is built out of tree into .build with an in-process transport in place of gRPC. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
