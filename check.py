#!/usr/bin/env python3
"""check.py <property> <quick|thorough>  -- decide one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, tlc


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    ck = core.Check(prop, tier)
    m = importlib.import_module("p_" + prop.lower())
    try:
        ck.build()
    except core.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    m.run(ck)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
