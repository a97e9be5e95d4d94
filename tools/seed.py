"""Creates and validates a planted bug in a scratch copy of /repo.

usage: python3 tools/seed.py ID SPEC.py   (SPEC: property, needs, breaks, edits=[(file, old, new)], demo=str)
       python3 tools/seed.py --check ID   (re-validate)
Development tool; no check uses it or reads /verif/seeded."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def create(sid, spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("git -C /repo worktree prune; cp -a /repo %s/r" % w)
        for f, old, new in g["edits"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s/r diff" % w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\n"
        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    open(os.path.join(d, "demo.py"), "w").write(g["demo"].lstrip())
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def validate(sid):
    """Needs /repo clean; applies the patch to /repo (the tests name /repo) and undoes it."""
    d = os.path.join(ROOT, "seeded", sid)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    if r.returncode:
        return "demo fails on clean tree: " + r.stdout[-800:]
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        return "patch does not apply: " + a.stdout
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "build: " + b.stdout[-500:]
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        if r.returncode == 0:
            return "demo passes with the patch"
        print("demo:", r.stdout.strip().splitlines()[-1:])
        t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open("/tmp/seed.json"))
        stable = base.get("stable") or base.get("passed") or base
        passed = set(res.get("passed", []))
        bad = [x for x in stable if x not in passed]
        if bad:
            return "tests broken: " + ", ".join(bad[:5])
        pid = json.load(open(os.path.join(d, "meta.json")))["property"]
        import time
        t0 = time.time()
        c = sh("python3-vt check.py %s --tier quick" % pid, cwd=ROOT, timeout=900)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return "OK; check exit %d in %.0fs %s" % (c.returncode, time.time() - t0, v[:1])
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        for s in sys.argv[2:]:
            print(s, validate(s), flush=True)
    else:
        create(sys.argv[1], sys.argv[2])
        print(sys.argv[1], validate(sys.argv[1]))
