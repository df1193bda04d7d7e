#!/usr/bin/env python3
"""seed.py SPEC.json : validate planted bugs in /repo (applied, tested, undone) and store them in seeded/.
Spec: list of {id, property, needs, what_it_breaks, edits:[[file, old, new]], demo}. """
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
for s in eval(open(sys.argv[1]).read()):
    d = os.path.join(V, "seeded", s["id"])
    assert not sh("git -C /repo status --porcelain").stdout, "dirty"
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = t.count(old)
            assert n == 1, (s["id"], f, n, old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        t = sh("bash /opt/vp/test.sh /tmp/o.json")
        last = t.stdout.strip().splitlines()[-1]
        if "514 passed, 0 failed" not in last:
            print(s["id"], "TESTS:", last)
            print("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l)[:1500])
            continue
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        for fn, txt in s.get("files", {}).items():
            open(os.path.join(d, fn), "w").write(txt)
        bad = sh("bash %s/demo.sh" % d, cwd=R)
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    good = sh("bash %s/demo.sh" % d, cwd=R)
    print(s["id"], "tests pass; demo with patch rc=%d, without rc=%d" % (bad.returncode, good.returncode), "" if bad.returncode and not good.returncode else "BAD DEMO\n" + good.stdout[-800:])
