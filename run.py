import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--part", action="append")
ap.add_argument("--only")
ap.add_argument("--worker")
ap.add_argument("--out")
ap.add_argument("--jobs", type=int)
a = ap.parse_args()

import mc

if a.worker:
    mc.run_part(a.prop, a.worker, a.tier, a.seed, a.out, a.only)
    sys.stdout.flush()
    os._exit(0)
sys.exit(mc.main(a.prop, a.tier, a.seed, a.part, a.only, a.jobs))
