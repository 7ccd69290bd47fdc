#!/usr/bin/env python3
"""check.py Cxx: decide one property on /repo's working tree. See DESIGN.md.

   check.py --setup          build what the quick checks use
   check.py --replay FILE    run the case of a replay file again
"""
import hashlib, json, os, resource, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(ROOT, ".work")
sys.path.insert(0, os.path.join(ROOT, "checks"))


def main():
    import registry
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        return registry.setup()
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return registry.replay(sys.argv[2])
    return registry.run(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
