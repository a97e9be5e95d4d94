#!/usr/bin/env python3
"""usage: python3-vt check.py PROPERTY [--tier quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS  # noqa
from symx.runner import run_property  # noqa


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    budget = None
    if "--budget" in sys.argv:
        budget = float(sys.argv[sys.argv.index("--budget") + 1])
    sys.exit(run_property(pid, tier, PROPS[pid], budget=budget))


if __name__ == "__main__":
    main()
