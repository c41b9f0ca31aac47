"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # properties
CLAIMED = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note=None, na=None):
    assert len(title) <= 80, title
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )
    if na:
        NA[id] = na
    else:
        CLAIMED[id] = level_note


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

built = {
    n[:3].upper()
    for n in os.listdir(os.path.join(HERE, "sim", "checks"))
    if n.startswith("c") and n.endswith(".py")
}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i not in built:
        na.append({"property": i, "reason": "check not built yet"})
    else:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./run.sh check {i} --tier quick",
                "thorough_cmd": f"./run.sh check {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection: seeded schedule and fault search",
                "level": "exploration",
                "level_note": CLAIMED[i],
            }
        )
man = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All seams are outside /repo (LD_PRELOAD libraries, Python-level seams, an instrumented build of single C++ files), "
    "so /repo carries no hooks. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
