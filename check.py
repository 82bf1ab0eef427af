#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]  |  check.py --replay <file>"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vlib import driver  # noqa: E402
if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(driver.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(driver.check(sys.argv[1], tier))
