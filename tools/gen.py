#!/usr/bin/env python3-vt
"""write properties.jsonl and MANIFEST.json from tools/catalog.py and the property modules present in props/"""
import sys, os, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools import catalog
NA = {}
naf = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(naf):
    NA = json.load(open(naf))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in catalog.P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in catalog.P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".py")):
        m = importlib.import_module("props." + i)
        fns = len(m.SPECS)
        checks.append(dict(property=i, quick_cmd="./check.py %s -q" % i, thorough_cmd="VERIF_TIER=thorough ./check.py %s -q" % i,
                           technique="contract-based deductive verification of the extracted real code (SMT)",
                           level=m.LEVEL, level_note=getattr(m, "NOTE", "") or
                           "%d functions under contract, every obligation discharged by z3/nlsat/cvc5 on every run; double arithmetic as exact reals; "
                           "partial correctness (termination not proved); library models trusted. Bounded stand-in (never counted as proved): %s" %
                           (fns, "; ".join(getattr(m, "BOUNDED", [])) or "none")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no contracts built yet for this property")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'from dv import front; front.ensure_tool()'", checks=checks, not_applicable=na,
               notes="see DESIGN.md; tools/gen.py regenerates this file"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
