#!/usr/bin/env python3
"""Regenerates spec/c15.json from the current tree (to be reviewed before committing)."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.depend import Depend   # noqa: E402
from sa.repo import Repo   # noqa: E402
from checks.c15 import SPEC, array_attrs, facts, public, sname   # noqa: E402

r = Repo()
D = Depend(r).solve()
out = {}
arr = array_attrs(r)
n = [0, 0, 0]
for f in sorted(r.all_fns(), key = lambda f: f.qual):
    if public(f):
        x = facts(D, f, arr)
        out[f.qual] = [' '.join(sorted(y)) for y in x]
        for i in range(3):
            n[i] += len(x[i])
            if x[i] and len(sys.argv) > 1:
                print(i, sname(f.qual), *sorted(x[i]))
out['*'] = ' '.join(sorted(arr))
with open(SPEC, 'w', encoding='utf-8') as fh:
    json.dump(out, fh, indent=0)
print(len(out), n)
