#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None, technique=None, level="exploration", note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state or [], hook=hook, technique=technique, level=level, note=note))
exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=p["hook"]))
        f.write(json.dumps(o) + "\n")

checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".cc"))
    if have:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"] or "runtime reference-model monitor over generated workloads, ASan+UBSan build",
                           level=p["level"],
                           level_note=p["note"] or "Held on the executions generated by the seed; trusts the reference model in harness/%s.cc, gcc sanitizers and the third-party libraries." % p["id"].lower()))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="none", enable="no hooks in /repo are needed: the checks build /repo's own CMake targets with sanitizer flags and observe the public API", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="tools/gen.py + tools/props.py generate this file and properties.jsonl; DESIGN.md explains every check.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(checks), "checks", len(na), "n/a")
