"""rewrites the table of planted bugs at the end of DESIGN.md"""
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = base + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("### Planted bugs")]
rows = []
for d in sorted(os.listdir(base + "/seeded")):
    m = json.load(open(f"{base}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
open(p, "w").write(head + "### Planted bugs\n\n| change (seeded/) | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
