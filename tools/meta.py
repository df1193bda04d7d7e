#!/usr/bin/env python3
"""Single source of properties.jsonl, bounds.json and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, B = [], {}

def prop(id, title, statement, over, qtext, why, files, mech, bounds, outside, assumptions=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=["substrait_explain::parse", "substrait_explain::format"], hook_needed=None), na=na))
    if na is None:
        B[id] = dict(bounds=bounds, outside=outside, assumptions=list(assumptions))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = dict(p); q.pop("na")
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
json.dump(B, open(os.path.join(V, "bounds.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "bounds.json"), "a").write("\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        b = B[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 driver.py %s quick" % p["id"], thorough_cmd="python3 driver.py %s thorough" % p["id"],
                           technique="symbolic execution of the crate's LLVM bitcode, branches and assertions decided by Z3",
                           level="model_checking",
                           level_note="Holds for every input within: %s Outside: %s Trusts rustc's bitcode, the executor's memory and allocator models, Z3; sampled paths are re-run natively and must agree." % (b["bounds"], b["outside"])))
m = dict(version=1, setup_cmd="python3 driver.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo; the harness crate uses the public API. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
