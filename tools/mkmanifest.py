"""Write MANIFEST.json from the registered checks."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sa.notes import NOTES as N  # noqa: E402
from sa.run import checks  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
C = checks()
PENDING = "no check has been built for it yet"
m = dict(
    version=1,
    setup_cmd="python3 -m compileall -q sa spec",
    checks=[],
    not_applicable=[],
    notes="Everything is pure Python (standard library only) and analyses /repo's working tree; see DESIGN.md.",
)
for p in props:
    i = p["id"]
    if i in C:
        t, n = N[i]
        m["checks"].append(
            dict(
                property=i,
                quick_cmd=f"python3 -m sa.run {i}",
                thorough_cmd=f"python3 -m sa.run {i} --tier thorough",
                technique=t,
                level="other",
                level_note=n,
            )
        )
    else:
        m["not_applicable"].append(dict(property=i, reason=PENDING))
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
