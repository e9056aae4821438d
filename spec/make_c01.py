"""Generates spec/c01.json, the reviewed reference table of written/restored elements (run by hand, never by a check)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.repo import Repo
from sa.persist import summaries
from checks.c01 import facts, wanted, read_only, extra_items, late_resets, short

repo = Repo()
S = summaries(repo, only=wanted(repo))
F = facts(S)
out = {}
res = set()
for q, d in F.items():
    o = {}
    restored = set()
    for p, f in d.items():
        if f['w'] and f['r']:
            mode = 'agree' if set(f['w']) & set(f['r']) else 'alias'
            restored |= set(f['w']) & set(f['r'])
        elif f['w'] or f['params'] or f['cpol']:
            mode = 'other'
        else:
            continue
        o[p] = {'mode': mode, **{k: f[k] for k in ('w', 'r', 'ops', 'ctrl', 'truthy', 'cpol', 'items', 'ritems', 'rctrl', 'where')}}
        o[p]['where'] = [x.split(':')[0] for x in o[p]['where'][:1]]
    out[q] = o
    for at, fn, st in late_resets(repo, repo.classes[q], restored):
        print('reset', q, at, fn.path, st.lineno)
out['#'] = {'unknown': {q: sorted({p.rsplit('/', 1)[0] if '/' in p else '' for p in list(F[q]) + list(S[q]['R']) if p.endswith('?')}) for q in F}}
out['#']['unknown'] = {q: v for q, v in out['#']['unknown'].items() if v}
out['#']['read only'] = read_only(S)
its = extra_items(repo)
out['#']['extra'] = sorted({(f.cls.name, k) for f, _, k, d, _ in its if d == 'r' and any(x == k and e == 'w' for _, _, x, e, _ in its)})
for f, n, k, d, o in its: print(f.short, n.lineno, k, d, sorted(o))
print(out['#'])
with open(os.path.join(H, 'spec', 'c01.json'), 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)

