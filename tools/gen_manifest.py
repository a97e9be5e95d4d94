"""Writes MANIFEST.json from the registry (run: python3 tools/gen_manifest.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from registry import PROPS, NOT_APPLICABLE  # noqa

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
na = []
for p in props:
    pid = p["id"]
    if pid in PROPS:
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt check.py %s --tier quick" % pid,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
            "technique": "symbolic execution of the real Python code with z3 (bounded), counterexamples replayed",
            "level": "model_checking",
            "level_note": "All paths of the real functions within the bounds stated in the evidence file are decided by z3 over symbolic inputs; trusts the "
                          "engine in /verif/symx, its library shims and the rational model of floats; counterexamples and sampled path witnesses are replayed "
                          "on the plain code.",
        })
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "Engine: /verif/symx (path exploration over instrumented elsie sources, z3). Harnesses: /verif/props, library stand-ins: /verif/envs. "
              "Every run re-reads /repo's sources. No hooks in /repo. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
