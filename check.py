#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] [--runs N]   |   check.py --replay FILE"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simkit import driver  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return driver.replay(a.replay)
    return driver.check(a.prop, a.tier, a.seed, runs=a.runs, evidence=not a.no_evidence)


if __name__ == "__main__":
    sys.exit(main())
