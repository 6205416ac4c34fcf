#!/opt/venv/bin/python
"""regenerates properties.jsonl, MANIFEST.json and the harness table in DESIGN.md"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "meta"))
import data
import run
scs = run.load()
NOTE = ("z3 discharges every assertion for all values of the symbolic inputs at the sizes listed in the evidence; reals instead of floats; "
        "numpy/scipy primitives trusted as modelled; sizes beyond the listed ones are outside the claim")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in data.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
claimed = [p for p in data.P if p["id"] in scs]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, pyscf' && /opt/veriftools/pyvenv/bin/python -c 'import z3'",
         checks=[dict(property=p["id"],
                      quick_cmd="/opt/venv/bin/python -W ignore run.py %s --tier quick" % p["id"],
                      thorough_cmd="/opt/venv/bin/python -W ignore run.py %s --tier thorough" % p["id"],
                      technique="bounded symbolic execution of the real Python functions, assertions discharged by z3, counterexamples replayed",
                      level="other", level_note=NOTE) for p in claimed],
         not_applicable=[dict(property=a, reason=b) for a, b in data.NA],
         notes="No hooks in /repo. known_findings.json lists fixed and known defects.")
assert {p["id"] for p in data.P} == {p["id"] for p in claimed} | {a for a, b in data.NA}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
out = []
for p in data.P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] not in scs:
        out.append("Not applicable: %s\n" % dict(data.NA)[p["id"]])
        continue
    for sc in scs[p["id"]]:
        out.append("- **%s** (%d quick, +%d thorough configurations): %s. *Bounds:* %s." % (
            sc["name"], len(sc["quick"]), len(sc["thorough"]), (sc["about"] or "").strip(), (sc["bounds"] or "").strip()))
    out.append("")
dp = os.path.join(HERE, "DESIGN.md")
d = open(dp).read()
a, b = "<!-- BEGIN HARNESSES -->\n", "<!-- END HARNESSES -->"
d = d[:d.index(a) + len(a)] + "\n".join(out) + "\n" + d[d.index(b):]
open(dp, "w").write(d)
print(len(claimed), "claimed")
