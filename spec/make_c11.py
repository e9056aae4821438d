#!/usr/bin/env python3
"""Regenerates spec/c11.json from the current tree (to be reviewed before committing)."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.depend import Depend, edges, own_attrs   # noqa: E402
from sa.flow import overwrites   # noqa: E402
from sa.repo import Repo   # noqa: E402
from checks.c11 import SPEC, documented_unused, pack, silent, sname   # noqa: E402

FINDINGS = {'rq_import._import_nexus.import_nexus progress_fn', 'well._trajectory.Trajectory.__init__ hdf5_source_model',
            'grid._grid.Grid.create_xml set_as_grid_root', 'grid._regular_grid.RegularGrid.create_xml set_as_grid_root'}
r = Repo()
D = Depend(r).solve()
sil, ed, ov = [], {}, {}
for f in r.all_fns():
    if f.parent is not None:
        continue
    s = D.memo[f.qual]
    for p in silent(f, s):
        k = f'{sname(f.qual)} {p}'
        if k not in FINDINGS and not documented_unused(f, p):
            sil.append(k)
    sl = set(f.params[:1]) if f.cls is not None and f.kind != 'static' else set()
    ed[f.qual] = pack([(o, p, k) for o, p, k in edges(s, own_attrs(r, f)) if p not in sl], f, D)
    o = sorted(p for p in overwrites(f, D.flow(f)) if p in f.params)
    if o:
        ov[f.qual] = o
with open(SPEC, 'w', encoding='utf-8') as fh:
    json.dump({'silent': sorted(sil), 'overwritten': ov, 'edges': ed}, fh, indent=0)
print(len(sil), sum(len(x) for x in ed.values()), sum(len(x) for x in ov.values()))
for x in sil:
    print(x)
