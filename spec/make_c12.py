#!/usr/bin/env python3
"""Regenerates spec/c12.json from the current tree (to be reviewed before committing)."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.flow import Flows   # noqa: E402
from sa.repo import Repo   # noqa: E402
from checks.c12 import SPEC, agree, documented, families, passed_on, resolves_to, same, show, sname, value   # noqa: E402

r = Repo()
fns = [f for f in r.all_fns() if f.parent is None]
doc = []
for f in fns:
    for p, txt, v in documented(f):
        d = f.default_of(p)
        got = None if d is None else value(d)
        if not (d is not None and (same(got, v) or got is None and v is not None and resolves_to(f, p, v))):
            doc.append(f'{sname(f.qual)} {p}')
            print(f.qual, p, txt, d and show(got))
po = sorted({f'{sname(f.qual)} {sname(g.qual)} {q} {show(a)} {show(b)}' for f, g, q, a, b in passed_on(r, Flows(r), fns) if not agree(f, q, a, g, q, b)})
fam = sorted({f'{sname(f.qual)} {p} {show(d)}' for (m, p), gs in families(fns).items() for d, fs in gs[1:] for f in fs})
with open(SPEC, 'w', encoding='utf-8') as fh:
    json.dump({'documented': sorted(doc), 'passed_on': po, 'families': fam}, fh, indent=0)
print(len(doc), len(po), len(fam))
print(*fam, sep='\n')
