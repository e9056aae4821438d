"""Derives the catalogue operation table (spec/c05.json) from a reviewed tree: python3 spec/make_c05.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa.repo import Repo   # noqa: E402
from checks.c05 import op_facts, query_facts   # noqa: E402

if __name__ == '__main__':
    r = Repo()
    out = {'ops': op_facts(r), 'queries': query_facts(r)}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c05.json'), 'w', encoding='utf-8') as fh:
        json.dump(out, fh, indent=1, sort_keys=True)
        fh.write('\n')
