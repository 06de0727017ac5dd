import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
have = set()
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["state"]:
            o["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in p["state"]]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
na = {a: b for a, b in props.NOT_APPLICABLE}
checks = []
for p in props.P:
    i = p["id"]
    if i in na:
        continue
    assert os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")), i
    c = "python3-vt check.py %s --tier " % i
    checks.append(dict(property=i, quick_cmd=c + "quick", thorough_cmd=c + "thorough", evidence_file="evidence/%s.json" % i,
                       technique="symbolic execution of the library's Python source, assertions discharged by z3",
                       level="model_checking",
                       level_note=p["note"] or "Every value within the stated bounds is decided by the solver on the current source; each explored path is replayed natively. Trusts the symbolic model of Python integers, doubles and strings, the reference formulas in the harness, and z3."))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in props.NOT_APPLICABLE],
               notes="See DESIGN.md. properties.jsonl and this file are generated by tools/gen.py from tools/props.py."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
