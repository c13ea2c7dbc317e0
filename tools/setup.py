"""Builds everything once, so that a broken toolchain shows before the checks run."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
c = check.Check("C12", "quick", 1)
try:
    c.b.prepare(["plain", "race"])
    print("built; bridge", c.b.bridge, c.b.info.get("sites"), "sites")
finally:
    c.cleanup()
