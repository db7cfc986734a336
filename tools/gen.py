import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mech = lambda m: [{"name": a, "where": b} for a, b in m]
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": mech(p["mech"])}}) + "\n")
    for i, t, s, o, q, w, fl, m, r in NA:
        f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w, "anchors": {"files": fl, "mechanism": mech(m)}}) + "\n")
checks, na = [], []
for p in P:
    if p["claimed"]:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": "static analysis: " + p["technique"], "level": "other",
                       "level_note": ("Whole-program abstract interpretation of MIR, all paths of all commands, loops to a fixpoint; sound up to the library models. " + p["note"]).strip()})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "the rule for it is not built yet"})
for i, *_, r in NA:
    na.append({"property": i, "reason": r})
json.dump({"version": 1, "setup_cmd": "./build_facts.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks share one analysis of /repo's current source (build_facts.sh dumps MIR facts with a rustc driver, sa/ interprets them); results are cached in .build by a hash of facts and analysis, never across different sources."},
          open(V + "/MANIFEST.json", "w"), indent=1)
with open(V + "/sa/rules.py", "w") as f:
    f.write('"""Generated by tools/gen.py from tools/props.py."""\nRULES = {\n')
    for p in P:
        f.write("    %r: {\n        'rule': %r,\n        'floors': %r,\n        'assume': %r,\n    },\n" % (p["id"], p["rule"], p["floors"], p["assume"]))
    f.write("}\n")

def section(p):
    out = ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Quantifies over* %s." % p["quant"].rstrip("."), "", "*Why tests cannot:* %s" % p["why"], "",
           "*Rule (%s):* %s." % (p["technique"], p["rule"].rstrip(".")), "", "*Must be met (floors):* %s." % "; ".join("%s ≥ %d" % (d, n) for _, n, d in p["floors"])]
    if p["note"]:
        out += ["", "*Left out:* " + p["note"]]
    return "\n".join(out) + "\n"


def fill(s, mark, text):
    i = s.index(mark) + len(mark)
    return s[:i] + "\n\n" + text + "\n" + s[s.index("<!-- end -->", i):]


d = open(V + "/DESIGN.md").read()
d = fill(d, "<!-- generated by tools/gen.py from tools/props.py -->", "\n".join(section(p) for p in P))
t = V + "/tools/seeded.txt"
if os.path.exists(t):
    caught = dict(l.rstrip("\n").split(": ", 1) for l in open(t) if ": " in l)
    rows = ["| Bug | Property | Needs | Reported as |", "|---|---|---|---|"]
    for b in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % b))
        rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, "?")))
    d = fill(d, "<!-- seeded -->", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(d)
