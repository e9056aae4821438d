"""Generates spec/guards.json, the reviewed conditions of effects (run by hand, never by a check)."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.repo import Repo
from sa.guardcheck import sweep, KINDS
repo = Repo()
out = {p: {f: {k: v[0] for k, v in d.items()} for f, d in sweep(repo, p).items()} for p in KINDS}
for p, d in out.items():
    print(p, len(d), sum(len(x) for x in d.values()))
with open(os.path.join(H, 'spec', 'guards.json'), 'w') as fh:
    json.dump(out, fh, indent=None, sort_keys=True, separators=(',', ':'))
