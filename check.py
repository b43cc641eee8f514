#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay FILE | --setup | --list

Decides one property of ermader/PathLib with contract-based deductive verification (see DESIGN.md)."""
from __future__ import annotations

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(VT))) and os.path.exists(VT) and not os.environ.get("PYVC_NOEXEC"):
    os.environ["PYVC_NOEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from pyvc import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
