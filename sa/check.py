#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   (or `all`)"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core
import registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ids = sorted(registry.CHECKS) if pid == "all" else [pid]
    rc = 0
    for i in ids:
        mod, level, tech = registry.CHECKS[i]
        m = importlib.import_module(mod)
        rc = max(rc, core.run(i, m.check, level, tech, tier))
    return rc


if __name__ == "__main__":
    sys.exit(main())
