#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors))
exec(open(pathlib.Path(__file__).with_name("props_src.py")).read())
out = pathlib.Path(__file__).parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
