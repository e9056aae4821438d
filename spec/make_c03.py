"""Generates spec/c03.json, the reviewed reference table of relationships (run by hand, never by a check)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.repo import Repo
from sa.persist import summaries
from checks.c03 import facts, site_roles, short
repo = Repo()
F = facts(summaries(repo))
SKIP = {('BoundaryFeatureInterpretation', 'InterpretedFeature')}    # relates to boundary_feature, whose uuid is feature_uuid
out = {'classes': {}, 'sites': {f: {l: sorted(r) for l, r in d.items()} for f, d in site_roles(repo).items()}}
for q, d in F.items():
    out['classes'][q] = {'refs': {p: {'extra': f['extra'], 'skip': (short(q), p) in SKIP} for p, f in d['refs'].items()}}
with open(os.path.join(H, 'spec', 'c03.json'), 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
