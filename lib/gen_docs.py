import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import P
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        y = dict(x); y.pop("na"); f.write(json.dumps(y) + "\n")
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
checks, na = [], []
for x in P:
    i = x["id"]
    hs = specs.SPECS.get(i, [])
    if hs and not x["na"]:
        kinds = []
        if any(type(h).__name__ == "Harness" for h in hs): kinds.append("CBMC bounded symbolic execution of the C source (SAT)")
        if any(type(h).__name__ == "RealCheck" for h in hs): kinds.append("LLVM IR translated to SMT over the reals (z3)")
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique="; ".join(kinds), level="other",
                           level_note="Every assertion decided by the solver for all values within the bounds recorded in the evidence file; counterexamples are replayed against the natively compiled code. " + " ".join(specs.ASSUMPTIONS.get(i, []))))
    else:
        na.append(dict(property=i, reason=x["na"] or "no check built for it"))
json.dump(dict(version=1, setup_cmd="cbmc --version && clang --version && python3-vt -c 'import z3'", checks=checks, not_applicable=na,
               notes="See DESIGN.md. Known findings: KNOWN_FINDINGS.txt. bin/check --list shows the harnesses."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na], "not")

D = os.path.join(V, "DESIGN.md"); M = "## 7. Harnesses and bounds (generated)\n"
t = open(D).read().split(M)[0].rstrip() + "\n\n" + M + "\nHarnesses with the same bounds are grouped; (T) = thorough tier only.\n\n"
for i in ids:
    hs = specs.SPECS.get(i, [])
    if not hs: continue
    t += "**%s**\n\n" % i
    g = {}
    for h in hs: g.setdefault((h.bounds, h.stubs_note), []).append(h.name + ("" if h.quick else " (T)"))
    for (b, n), names in g.items(): t += "- %s: %s%s\n" % (", ".join(names), b, " [%s]" % n if n else "")
    t += "\n"
open(D, "w").write(t)
