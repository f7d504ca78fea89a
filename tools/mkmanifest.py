"""Write MANIFEST.json from the plans (lib/plans.py) and the properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plans  # noqa

COMMON = ("The TLA+ model is checked exhaustively by TLC within small constants; behaviours drawn from the same model by TLC "
          "are performed on the server built from /repo and every reply, counter and file is compared with what the model "
          "says. Random behaviours within bounds, not a proof about the code. Trusted: TLC, the replayer, the environment "
          "shim (clock, socket buffers, faults), the kernel. ")
NOTE = {}
if hasattr(plans, "NOTES"):
    NOTE = plans.NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: the checks link the server with lib/shim.c, which puts clock, socket buffers, file faults and "
               "forked children under control from outside. DESIGN.md describes everything; KNOWN_FINDINGS.txt lists repaired defects.")
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 checks/check.py " + i,
                                thorough_cmd="VERIF_TIER=thorough python3 checks/check.py " + i,
                                evidence_file="evidence/%s.json" % i,
                                technique="explicit TLA+ specification: TLC model checking, and TLC behaviours replayed into the real server",
                                level=getattr(plans, "LEVELS", {}).get(i, "model_checking"),
                                level_note=(COMMON + NOTE.get(i, "")).strip()))
    else:
        m["not_applicable"].append(dict(property=i, reason="the check is not built yet"))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
