#!/usr/bin/env python3
"""run_check.py <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and not sys.prefix.startswith("/opt/venv"):
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import runner   # noqa: E402


def main():
    check_id = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    check = importlib.import_module("vp.checks." + check_id.lower())
    sys.exit(runner.run_check(check_id, check, replay))


main()
