"""Regenerates spec/c16.json from the current tree (to be reviewed)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.c16 import SPEC, persistent, table   # noqa: E402
from sa.repo import Repo   # noqa: E402

r = Repo()
out = {'loops': table(r), 'persistent': sorted({(w, f.module.name) for (w, f) in persistent(r)})}
with open(SPEC, 'w', encoding = 'utf-8') as fh:
    json.dump(out, fh, indent = 0, sort_keys = True)
    fh.write('\n')
print(len(out['loops']), sum(len(v['carried']) for v in out['loops'].values()))
for p in out['persistent']:
    print(p)
