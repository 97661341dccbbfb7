"""MANIFEST.json from the list of checks that exist (harness/pNN.py)"""
import importlib.util
import json
import re
from pathlib import Path

R = Path(__file__).resolve().parent.parent
props = [json.loads(x)["id"] for x in (R / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((R / "tools" / "levels.json").read_text())
checks, na = [], []
for p in props:
    f = R / "harness" / (p.lower() + ".py")
    if f.exists() and p in NOTES:
        lev = re.search(r'^LEVEL = "(\w+)"', f.read_text(), re.M).group(1)
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick",
                           thorough_cmd=f"./check {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", level=lev,
                           technique=NOTES[p]["technique"], level_note=NOTES[p]["note"]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, checked with TLC); harness/ binds them to /repo. "
               "No hooks in /repo are needed.")
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
