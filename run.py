"""Decides the properties: python3-vt run.py --property C01 [--tier quick|thorough]."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vsx import driver  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("--property", required=True)
ap.add_argument("--tier", default="quick", choices=("quick", "thorough"))
ap.add_argument("--case", help="only cases whose name contains this")
ap.add_argument("--replay", help="replay file of a violation")
ap.add_argument("--jobs", type=int, default=0)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
sys.exit(driver.main(a, HERE))
