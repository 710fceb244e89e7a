#!/usr/bin/env python3
"""check.py <property id> | --replay FILE"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import checks, engine


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return engine.replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in checks.CHECKS:
        print("usage: check.py <%s> | --replay FILE" % "|".join(sorted(checks.CHECKS)))
        return 2
    try:
        return checks.CHECKS[sys.argv[1]]()
    except engine.HarnessError as ex:
        print("HARNESS-ERROR property=%s %s" % (sys.argv[1], str(ex)[:3000]))
        return 2


if __name__ == "__main__":
    sys.exit(main())
