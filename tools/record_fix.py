"""python3 tools/record_fix.py PID "what failed": records /repo's last commit as a fix."""
import json
import os
import subprocess
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "known_findings.json")
k = json.load(open(p))
h = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h"], capture_output=True, text=True).stdout.strip()
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open(p, "w"), indent=1)
