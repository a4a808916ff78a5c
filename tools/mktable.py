"""Writes the table of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Bug | Property | Needs | Breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
