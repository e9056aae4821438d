#!/usr/bin/env python3
"""check.py ID: decide one property statically on /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.report import run   # noqa: E402

if __name__ == '__main__':
    if len(sys.argv) != 2:
        print('usage: check.py ID')
        sys.exit(2)
    pid = sys.argv[1]
    mod = importlib.import_module(f'checks.{pid.lower()}')
    sys.exit(run(pid, mod.check))
