#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from dp3a import report  # noqa: E402

if __name__ == "__main__":
    sys.exit(report.main(
        lambda p: importlib.import_module("checks." + p.lower())))
