#!/usr/bin/env python3
"""python3 check.py <PROPERTY>: decide one property from /repo's current sources.
exit 0: holds; 1: VIOLATION; 2: the analysis itself failed."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)

if __name__ == "__main__":
    import harness
    prop = sys.argv[1]
    import registry
    if prop == "--selftest":
        for mod, fn, technique in registry.CHECKS.values():
            getattr(importlib.import_module(mod), fn)
        print("ok", len(registry.CHECKS), "checks")
        sys.exit(0)
    mod, fn, technique = registry.CHECKS[prop]
    m = importlib.import_module(mod)
    sys.exit(harness.main(prop, getattr(m, fn), technique))
