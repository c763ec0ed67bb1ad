#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property on the current working tree of /repo."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(HERE, "lib"))
import vcommon

if __name__ == "__main__":
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    sys.exit(vcommon.run_check(sys.argv[1], replay))
