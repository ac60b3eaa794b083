#!/usr/bin/env python3
"""Development tool (no check uses it):  plant.py make ID | test ID [checks...]
make: write /verif/seeded/ID from the definitions in plants/*.py; test: apply to /repo, build, run tests, demo, checks, undo."""
import json, os, re, subprocess, sys, glob, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = {}

CPP = '''#!/bin/bash
# builds a small program with the sources of the current tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -Isrc -o "$T/demo" "$D/demo.cpp" %s -lfftw3 -lfftw3f || exit 3
cd "$T" && timeout 200 ./demo
'''
PYS = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/_build/py:/repo PYTHONDONTWRITEBYTECODE=1
timeout 200 /opt/gfft/venv/bin/python "$D/demo.py"
'''


def bug(id, prop, edits, needs, breaks, cpp=None, srcs="", py=None):
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, cpp=cpp, srcs=srcs, py=py)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)


def make(id):
    b = B[id]
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "repo not clean"
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p, encoding="utf-8").read()
            n = 1
            if isinstance(old, tuple):
                old, n = old
            parts = s.split(old)
            assert len(parts) > n and (n > 1 or len(parts) == 2), (id, f, old, len(parts) - 1)
            s = old.join(parts[:n]) + new + old.join(parts[n:])
            open(p, "w", encoding="utf-8").write(s)
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", REPO, "diff"]).stdout)
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])
    if b["cpp"]:
        open(os.path.join(d, "demo.cpp"), "w").write(b["cpp"])
        open(os.path.join(d, "demo.sh"), "w").write(CPP % " ".join(s if s[0] == "-" else "src/nrlib/" + s for s in b["srcs"].split()))
    else:
        open(os.path.join(d, "demo.py"), "w").write(b["py"])
        open(os.path.join(d, "demo.sh"), "w").write(PYS)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def check(pid):
    r = sh(["python3-vt", os.path.join(HERE, "check.py"), pid], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v, (r.stdout.strip().splitlines() or [""])[-1][:160]


def test(id, checks):
    d = os.path.join(HERE, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    demo = "bash %s/demo.sh" % d
    if os.environ.get("CLEAN"):
        print(id, "demo clean:", sh(demo, cwd=REPO).returncode)
    r = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        print(id, "patch does not apply", r.stderr)
        return
    try:
        if not os.environ.get("NOBUILD"):
            b = sh("bash /opt/vp/test.sh /tmp/plant/%s.json" % id)
            passed = set(json.load(open("/tmp/plant/%s.json" % id))["passed"])
            miss = [t for t in base - passed if "ReadWriteBinary" not in t]
            r = sh(demo, cwd=REPO)
            print(id, "tests missing:", miss[:3], "demo patched:", r.returncode, r.stdout.strip()[-100:], flush=True)
        for c in checks or [meta["property"]]:
            print(id, *check(c), flush=True)
    finally:
        sh(["git", "-C", REPO, "checkout", "--", "."])


for f in sorted(glob.glob(os.path.join(HERE, "tools", "plants", "*.py"))):
    exec(open(f).read())
if __name__ == "__main__":
    if sys.argv[1] == "make":
        for i in (sys.argv[2:] or B):
            make(i)
    elif sys.argv[1] == "test":
        ids = [x for x in sys.argv[2:] if x in os.listdir(os.path.join(HERE, "seeded"))]
        cs = [x for x in sys.argv[2:] if re.fullmatch(r"C\d\d", x)]
        for i in ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
            test(i, cs)
