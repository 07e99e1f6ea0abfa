#!/opt/venv/bin/python
"""run.py C01 [--tier quick|thorough] [--only TASK] [-v]   run one check
run.py --replay FILE                                        replay a stored violation"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("check", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
ap.add_argument("-v", action="store_true")
ap.add_argument("--first", action="store_true", help="stop at the first violation")
ap.add_argument("--replay")
ap.add_argument("--self-test", action="store_true")
a = ap.parse_args()
if a.self_test:
    sys.exit(core.self_test())
if a.replay:
    sys.exit(core.replay(a.replay))
sys.exit(core.main(a.check, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1), a.only, a.v, a.first))
