#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
rows, checks, nas = [], [], []


def row(pid, d):
    return {"id": pid, "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["qtext"]},
            "why_tests_cant": d["why"], "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]],
                                                    "hook_needed": None}}


for pid in sorted(props.PROPS):
    d = props.PROPS[pid]
    assert len(d["title"]) <= 80, (pid, len(d["title"]))
    rows.append(row(pid, d))
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "technique": "bounded symbolic execution of the compiled code (LLVM IR), obligations decided by z3 (QF_NRA/LRA) and exact normal forms",
                   "level": "other",
                   "level_note": "Solver verdict over all inputs within these bounds: " + d["bounds"] + " Exact real arithmetic (rounding outside the claim); trusts clang, the "
                   "instrumentation pass, the exact normal-form engine and z3; counterexamples are replayed on an uninstrumented build."})
for d in props.NA:
    rows.append(row(d["id"], d))
    nas.append({"property": d["id"], "reason": d["reason"]})
rows.sort(key=lambda r: r["id"])
open(os.path.join(HERE, "properties.jsonl"), "w").write("".join(json.dumps(r) + "\n" for r in rows))
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": nas,
           "notes": "No hooks in /repo: private members are reached with -fno-access-control in the harness builds."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
import design, glob
o = [design.HEAD]
for pid in sorted(props.PROPS):
    d = props.PROPS[pid]
    how, cost = design.HOW[pid]
    o.append("### %s %s\n%s\n\n* Decided by: %s\n* Cases: %s\n* Bounds: %s\n* Code: %s\n* Quick cost: about %d s\n" % (
        pid, d["title"], d["statement"], how, ", ".join("%s%s" % (n, " (thorough)" if op.get("thorough") else "") for _, n, op in d["cases"]), d["bounds"],
        ", ".join(d["files"]), cost))
o.append("### Not applicable\n")
for d in props.NA:
    o.append("* **%s %s**: %s" % (d["id"], d["title"], d["reason"]))
o.append("\n## 3. Defects found\n\nEach was shown by a counterexample that the plain build confirmed; repairs are separate `fix:` commits in /repo. `known_findings.txt`:\n")
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith(("fixed:", "known:")):
        o.append("* " + l.strip())
o.append("\n## 4. Planted bugs\n\nAll pass the stable tests, fail their demonstration, and are reported by the check named.\n\n| id | caught by | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"] + (" (missed)" if m.get("missed") else ""), m["needs"], m["what_it_breaks"]))
o.append(design.TAIL)
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o))
try:
    import jsonschema
    jsonschema.validate(json.load(open(HERE + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    for r in rows:
        jsonschema.validate(r, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid", len(rows))
except ImportError:
    print("written (not validated: no jsonschema)")
