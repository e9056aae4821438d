"""Generates spec/c02.json, the reviewed reference table of hdf5 array names (run by hand, never by a check)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.repo import Repo
from sa.persist import summaries
from checks.c01 import wanted, short
from checks.c02 import facts, load_sites
repo = Repo()
F = facts(summaries(repo, only=wanted(repo)))
for q, d in F.items():
    for t, f in d['tails'].items():
        f['mode'] = 'agree' if set(f['attrs']) & set(f['lattrs']) else 'alias' if f['lattrs'] else 'none'
        odd = []
        if not f['where']: odd.append('notstored')
        if not f['rwhere']: odd.append('notref')
        if not f['lattrs']: odd.append('notloaded')
        elif f['mode'] == 'alias': odd.append(f'alias {f["attrs"]} {f["lattrs"]}')
        if odd: print(short(q), t, f['paths'][:2], odd)
        for k in ('where', 'rwhere', 'lwhere'):
            f[k] = [x.split(':')[0] for x in f[k][:1]]
with open(os.path.join(H, 'spec', 'c02.json'), 'w') as fh:
    json.dump({q: d for q, d in F.items() if d['tails']}, fh, indent=0, sort_keys=True)

with open(os.path.join(H, 'spec', 'c02_loads.json'), 'w') as fh:
    json.dump({k: {'dtype': sorted(d['dtype']), 'ops': sorted(d['ops']), 'lims': sorted(d['lims'])} for k, d in load_sites(repo).items()}, fh, indent=0, sort_keys=True)
