#!/usr/bin/env python3
"""python3 /verif/run.py C01 [C02 ...] [--tier=thorough]   - run checks against /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from mxlint.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
