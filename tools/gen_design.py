"""Fills the generated tables of DESIGN.md (idempotent: tables sit between markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
k = json.load(open(os.path.join(V, "known_findings.json")))
rows = []
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    rows.append(f"| {m[2]} | {m[1]} | {m[3]} |")
rows2 = ["| id | property | needs | caught by |", "|----|----------|-------|-----------|"]
d = os.path.join(V, "seeded")
cf = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(os.path.join(d, n, "meta.json")))
    rows2.append(f"| {n} | {m['property']} | {m['needs']} | {', '.join(caught.get(n, [])) or '?'} |")
for tag, r in (("FIXED", rows), ("SEEDED", rows2)):
    body = f"<!-- {tag} -->\n" + "\n".join(r) + f"\n<!-- /{tag} -->"
    if f"@{tag}@" in s:
        s = s.replace(f"@{tag}@", body) if tag != "FIXED" else s.replace("@FIXED@", "\n".join(r))
    else:
        s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: body, s, flags=re.S)
open(p, "w").write(s)
