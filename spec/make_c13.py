#!/usr/bin/env python3
"""Regenerates spec/c13.json from the current tree (to be reviewed before committing)."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.repo import Repo   # noqa: E402
from checks.c13 import SPEC, table   # noqa: E402

with open(SPEC, 'w', encoding = 'utf-8') as fh:
    json.dump(table(Repo()), fh, indent = 0, sort_keys = True)
