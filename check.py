#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]  -- decide one property (run with python3-vt)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner  # noqa

sys.exit(runner.main(sys.argv[1:]))
