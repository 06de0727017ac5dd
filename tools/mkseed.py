"""Confirms planted bugs and writes them to /verif/seeded/<id>/: python3 tools/mkseed.py SPEC.py [ids...]

SPEC.py defines S = [dict(id, property, edits=[(file, old, new), ...], demo=python source, needs, breaks)].
A bug is kept only if it applies, the stable tests pass with it, and the demonstration fails with it and passes without.
"""
import json
import os
import subprocess
import sys

REPO = "/repo"
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero when it is broken
export PYTHONDONTWRITEBYTECODE=1
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests():
    sh("bash", "/opt/vp/test.sh", "/tmp/mkseed.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open("/tmp/mkseed.json"))
    want = set(base.get("stable") or base.get("passed") or base.get("tests"))
    got = set(res.get("passed"))
    return sorted(want - got)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip(), "/repo not clean"
    for s in ns["S"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(OUT, s["id"])
        if not only and os.path.exists(os.path.join(d, "meta.json")):
            continue
        demo = "import sys\nsys.path.insert(0, '.')\n" + s["demo"].lstrip("\n")
        tmp = "/tmp/mkseed_demo"
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/demo.py", "w").write(demo)
        open(tmp + "/demo.sh", "w").write(DEMO)
        try:
            a = sh("bash", tmp + "/demo.sh", cwd=REPO)
            if a.returncode:
                print(s["id"], "REJECTED: demo fails on the unchanged tree", a.stdout[-300:], a.stderr[-600:])
                continue
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, "lunar_python", f)
                src = open(p, encoding="utf-8").read()
                if src.count(old) != 1:
                    print(s["id"], "REJECTED: text occurs", src.count(old), "times in", f)
                    ok = False
                    break
                open(p, "w", encoding="utf-8").write(src.replace(old, new))
            if not ok:
                continue
            diff = sh("git", "-C", REPO, "diff").stdout
            b = sh("bash", tmp + "/demo.sh", cwd=REPO)
            c = sh("bash", "/opt/vp/build.sh")
            missing = tests()
            if b.returncode == 0 or c.returncode or missing:
                print(s["id"], "REJECTED: demo rc", b.returncode, "build rc", c.returncode, "tests lost", missing[:5])
                continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w", encoding="utf-8").write(diff)
            open(d + "/demo.py", "w", encoding="utf-8").write(demo)
            open(d + "/demo.sh", "w").write(DEMO)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w", encoding="utf-8"), ensure_ascii=False, indent=1)
            print(s["id"], "kept;", (b.stderr.strip().splitlines() or [""])[-1][:150])
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")


main()
