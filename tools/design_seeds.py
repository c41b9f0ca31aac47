"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| change | property | what it needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", n, "meta.json")))
    c = m["property"] if m.get("caught", True) else "not caught: " + m.get("why_missed", "")
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {c} |")
rows.append("<!-- /seeds -->")
p = os.path.join(H, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|@@SEEDS@@", lambda _: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)
