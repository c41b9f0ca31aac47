"""mkseed.py SPEC.py: make seeded/<id>/ from edits, and try the demo both ways.

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
BASE = os.environ.get("SEED_BASE", "/repo")

SH = """#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export PYTHONPATH=$PWD:$PWD/projects/nerf
exec timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
"""


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    ID = ns["ID"]
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    head = sh("git", "-C", BASE, "rev-parse", "HEAD").stdout.strip()
    sh("git", "-C", WT, "fetch", "-q", BASE, head)
    sh("git", "-C", WT, "checkout", "-q", "-f", head)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", WT, "diff").stdout
    out = os.path.join(HERE, "seeded", ID)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(ns.get("SH", SH))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    json.dump(
        {"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
        open(os.path.join(out, "meta.json"), "w"), indent=1)
    cpp = any(f.endswith((".cpp", ".h")) for f, _, _ in ns["EDITS"])
    if cpp:
        print("C++ edit: demo must be tried in /repo after a build")
        return
    r = sh(os.path.join(out, "demo.sh"), cwd=WT)
    bad = r.returncode
    print(r.stdout[-1500:])
    sh("git", "-C", WT, "checkout", "-q", "-f", head)
    r = sh(os.path.join(out, "demo.sh"), cwd=WT)
    print(f"{ID}: with patch rc={bad}, without rc={r.returncode}")
    if r.returncode:
        print(r.stdout[-1500:])


for s in sys.argv[1:]:
    main(s)
