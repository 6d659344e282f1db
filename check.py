#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""

import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from osa.cli import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
