"""Generates spec/c04.json, the reviewed reference table of object types (run by hand, never by a check)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.repo import Repo
from sa.persist import summaries
from checks.c04 import class_types, ref_types, RESQML, bare
repo = Repo()
S = summaries(repo)
PROP = ['CategoricalProperty', 'ContinuousProperty', 'DiscreteProperty', 'PointsProperty', 'PropertySet']
out = {'types': {}, 'multi': {}, 'extra': [], 'refs': {}, 'flavours': {}}
for q, (t, w) in class_types(repo).items():
    if t in RESQML | {'WellboreMarker'}:
        out['types'][q] = t
    else:
        print('other type', q, t)
for q, s in S.items():
    for p in s['parts']:
        ts = {bare(t) for t in p['type']} - {'{}'}
        if q.endswith('.Crs'):
            out['multi'][q] = sorted(ts)
        elif q.endswith('PropertyCollection') or q.endswith('WellLogCollection') or q.endswith('AttributePropertySet'):
            assert ts <= set(PROP)
            out['multi'][q] = PROP
        elif ts and ts != {out['types'].get(q)}:
            print('mismatch', q, ts, out['types'].get(q))
for (q, p), (c, w, fl) in ref_types(S).items():
    c = sorted(x for x in c if '{' not in x)
    if c:
        assert set(c) <= RESQML, c
        out['refs'][f'{q} {p}'] = c
        for f in fl:
            out['flavours'][f] = sorted(set(out['flavours'].get(f, [])) | set(c))
with open(os.path.join(H, 'spec', 'c04.json'), 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
