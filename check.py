#!/usr/bin/env python3-vt
import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import driver
a = argparse.ArgumentParser(); a.add_argument("property"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
o = a.parse_args()
sys.exit(driver.main(o.property, o.tier, o.seed))
