#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] : decide one property from the source of /repo"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])
if "--selftest" in sys.argv:
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sa.driver import selftest
    sys.exit(selftest())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.driver import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
