"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cp = os.path.join(root, "tools", "caught.json")
caught = json.load(open(cp)) if os.path.exists(cp) else {}
rows = ["| planted change | property | needs | caught by (quick tier) |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(root, "seeded*", "*", "meta.json")), key=lambda m: m.split(os.sep)[-2]):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs'].replace('|', '/')} | {caught.get(i, 'not run')} |")
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open(p, "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])
