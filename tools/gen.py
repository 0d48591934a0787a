"""Write properties.jsonl and MANIFEST.json for the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "mc")]
from props import PROPS  # noqa: E402
from notes import HOOKS, LEVEL, NOT_APPLICABLE, NOTES  # noqa: E402

have = {f[:3].upper() for f in os.listdir(os.path.join(VERIF, "mc")) if f[0] == "p" and f[1:3].isdigit()}
checks = []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for q in PROPS:
        if q["id"] in have or q["id"] in NOT_APPLICABLE:
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
        if q["id"] in have:
            level, technique, note = LEVEL[q["id"]]
            checks.append(dict(property=q["id"], quick_cmd=f"./check {q['id']} quick",
                               thorough_cmd=f"./check {q['id']} thorough",
                               technique=technique, level=level, level_note=note))
m = dict(version=1, setup_cmd="./setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()], notes=NOTES)
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks")
