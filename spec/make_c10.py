"""Generates spec/c10.json: which parameters each function hands on to which (run by hand, never by a check)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.repo import Repo
from checks.c10 import facts, carries
repo = Repo()
known = set(repo.fns)
F, cur = facts(repo, known)

edges, swaps = {}, {}
for fq, by in cur.items():
    f = repo.fns[fq]
    for gq, ss in by.items():
        es = set()
        for s in ss:
            for q, ps in s.pure.items():
                for p in ps:
                    if p in ('self', 'cls') or q not in repo.fns[gq].params:
                        continue
                    if p[0] == '@' and (p[1:] != q or q in ('root', 'uuid', 'part', 'a', 'n', 'fp', 'half_hex', 'start_ip')):
                        continue
                    es.add((p, q, 'all' if all(carries(x, p, q) for x in ss) else 'some'))
            for q, ps in s.pure.items():
                for p in ps:
                    if p != q and s.pure.get(p) == {q} and p in repo.fns[gq].params and p in f.params and q in f.params:
                        swaps.setdefault(f'{fq} {gq}', []).append(f'{p} {q}')
                        print('SWAP', fq, gq, p, q, s.where)
        if es:
            edges.setdefault(fq, {})[gq] = [' '.join(e) for e in sorted(es)]
from sa.flow import overwrites
over = {}
for fq in cur:
    o = overwrites(repo.fns[fq], F.flow(repo.fns[fq]))
    if o:
        over[fq] = sorted(o)
print(sum(map(len, over.values())), 'overwritten')
json.dump({'functions': sorted(known), 'edges': edges, 'swaps': swaps, 'overwritten': over}, open(os.path.join(H, 'spec', 'c10.json'), 'w'), indent=0, sort_keys=True)
