#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/vp/venv":
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
import rt  # noqa: E402

MODULES = {"S": "solver", "H": "heur", "G": "cpp", "Y": "pyalg", "L": "labs", "M": "memory"}

if __name__ == "__main__":
    rt.main(lambda pid: MODULES[pid[0]])
