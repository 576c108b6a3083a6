"""fill the findings and planted-bug tables of DESIGN.md; usage: tools/design.py CATCHLOG"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
find = "\n".join("* " + x.replace("fixed: property=", "") for x in k["fixed"])
rows, cur = [], None
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) rc (\d+) \d+s (\w+)", l)
    if m:
        cur = [m.group(1), m.group(3) if m.group(2) == "1" else "MISSED", "", ""]
        rows.append(cur)
    m = re.match(r"\s+failed obligations: (\d+) ?(?:FAILED OBLIGATION (.*?) \[)?", l)
    if m and cur:
        cur[2], cur[3] = m.group(1), (m.group(2) or "-").replace("|", "/")
t = "| planted bug | input found by | failed obligations | first of them |\n|---|---|---|---|\n"
for r in rows:
    t += "| %s | %s | %s | %s |\n" % (r[0], {"harness": "replay program", "proof": "none (no-failing-input-found)"}.get(r[1], r[1]), r[2], r[3][:110])
d = open(V + "/DESIGN.md").read()
for tag, x in (("findings", find), ("seeds", t)):
    d = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + x.rstrip() + "\n" + m.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
print(len(rows), "planted,", len(k["fixed"]), "fixed")
