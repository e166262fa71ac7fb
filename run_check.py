#!/usr/bin/env python3
"""Runs the check of one property: run_check.py C01 [--tier thorough] [--replay FILE]."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or (os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv"):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    e.pop("PYTHONOPTIMIZE", None)
    if e.get("DBV_REEXEC") != "1":
        e["DBV_REEXEC"] = "1"
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from dbv.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
