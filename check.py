#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "vlib"))
sys.path.insert(0, os.path.join(here, "rules"))
sys.setrecursionlimit(20000)
import facts, mir


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("r_" + pid.lower())
    if getattr(mod, "NEEDS_FACTS", True):
        db = mir.DB(facts.ensure())
    else:
        db = None
    return mod.run(db)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":       # set order must not depend on the run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
