#!/usr/bin/env python3-vt
"""check.py <property id>: see vc/driver.py."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":  # same order of facts and obligations in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vc import driver
sys.exit(driver.main(sys.argv[1]))
