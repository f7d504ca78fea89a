#!/usr/bin/env python3
"""check.py <property id>: decides one property (VERIF_TIER, VERIF_SEED); check.py replay <file>: runs one recorded case again."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

import campaign      # noqa: E402
import plans         # noqa: E402
import sut           # noqa: E402


def rerun(path):
    job = json.load(open(path))["job"]
    builds = [(job["kind"], job["defs"])] if job["type"] == "replay" else [tuple(b) for b in job["builds"]]
    bins = {b: sut.build(*b) for b in builds}
    n, bad = campaign.execute(job, bins)
    print("held (%d comparisons)" % n if not bad else "%s: %s" % bad)
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(rerun(sys.argv[2]))
    sys.exit(plans.PLANS[sys.argv[1]]().run())
