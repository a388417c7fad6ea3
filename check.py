#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [quick|thorough] -- decide one property for /repo's working tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), HERE]
sys.dont_write_bytecode = True
import vlib
import plans


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = vlib.Check(pid, tier)
    try:
        getattr(plans, pid)(c)
    except vlib.MachineryError as e:
        print(f"MACHINERY-ERROR property={pid}: {e}")
        import shutil
        shutil.rmtree(c.work, ignore_errors=True)
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
