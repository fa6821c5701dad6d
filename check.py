#!/usr/bin/env python3
"""python3 check.py PROPERTY [quick|thorough]: decides one property (see DESIGN.md)."""
import importlib, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
import engine
registry = {}
for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
    if f.endswith(".py"): registry.update(importlib.import_module(f[:-3]).CHECKS)
if __name__ == "__main__":
    sys.exit(engine.main(registry))
