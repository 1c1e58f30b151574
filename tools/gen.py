#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
N = []      # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    assert len(title) <= 80, (id, len(title))
    if na:
        N.append(dict(property=id, reason=na))
    else:
        C.append(dict(property=id, quick_cmd="./run.sh " + id, thorough_cmd="./run.sh %s thorough" % id,
                      technique=technique, level="other", level_note=note))


C = []
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./run.sh", checks=C, not_applicable=N,
                   notes="Static analysis only: every check loads, type-checks and analyses /repo's current source; nothing of /repo is executed. No hooks are needed in /repo."), f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(C), "claimed")
