"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json {id: how}."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
rows = ["| planted bug | property | what it breaks | caught |", "|-|-|-|-|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    i = f.split("/")[-2]
    d = json.load(open(f))
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {c.get(i, '?')} |")
s = open(V + "/DESIGN.md").read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
