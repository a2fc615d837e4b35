#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: runs the check of one property."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, os.path.join(HERE, "checks"))
import runner, build
if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        rc = runner.main(pid, "check_" + pid)
    except build.BuildError as e:
        print("BUILD ERROR\n" + str(e)); rc = 2
    sys.stdout.flush()
    os._exit(rc)
