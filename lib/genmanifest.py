"""Write MANIFEST.json from the table below (python3 lib/genmanifest.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib.meta import META  # noqa: E402
from lib.props import CONTRACTS  # noqa: E402

checks = []
for i in range(1, 21):
    p = f"C{i:02d}"
    if not (CONTRACTS.get(p) or os.path.exists(f"{ROOT}/bounded/{p.lower()}.py")):
        continue
    m = META[p]
    if m["level"] == "proof":
        tech = ("contracts on the functions the property depends on, verification conditions generated from "
                "/repo's source on every run and discharged by z3/cvc5; bounded search on the real code supplies inputs")
    elif CONTRACTS.get(p):
        tech = ("contracts on part of the functions, discharged by z3/cvc5 from /repo's source on every run; "
                "the property itself is decided by a bounded stand-in executing its postcondition on the real code")
    else:
        tech = "bounded stand-in: the property's postcondition executed on the real code against an independent oracle"
    checks.append({
        "property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
        "technique": tech, "level": m["level"], "level_note": m["explain"],
    })
claimed = {c["property"] for c in checks}
na = [{"property": f"C{i:02d}", "reason": "not built yet"} for i in range(1, 21) if f"C{i:02d}" not in claimed]
man = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import comb_spec_searcher'",
    "checks": checks, "not_applicable": na,
    "notes": "Contracts are sidecars in /verif/contracts; /repo carries no hooks, only fix: commits.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
