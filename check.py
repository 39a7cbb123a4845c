#!/usr/bin/env python3
"""python3 check.py <property id> : decide one property from the current source of /repo (VERIF_REPO overrides)."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    m = importlib.import_module('sa.checks.%s' % pid.lower())
    sys.exit(m.run().finish())


main()
