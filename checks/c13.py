"""C13: equivalence tests compare what tells two objects apart, each item with its counterpart."""

import json
import os

from sa.equiv import outcomes
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c13.json')
WHAT = {'differ': 'differ in', 'self only': 'differ in that only the first has', 'other only': 'differ in that only the second has'}


def table(repo):
    out = {}
    for c in sorted(repo.classes.values(), key = lambda c: c.qual):
        f = repo.find_method(c, 'is_equivalent')
        if f is not None and not c.name.startswith('_'):
            out[c.qual] = {f'{s}: {i}': sorted(v) for (s, i), v in outcomes(repo, c, f).items()}
    return out


def check(chk):
    repo = chk.repo
    chk.rule('is_equivalent of every class is evaluated over what it compares: for each item (attribute, or what is found from it) of one object compared with another, the '
             'outcome is found when just that item differs, or is there for one of the two objects only, all other conditions being followed both ways. R1: the objects are not '
             'equivalent, where the reference has them not to be. R2: all that the reference compares is compared, with its counterpart. R3: objects all of whose compared '
             'items are the same, and an object and itself, are equivalent. R4: no object is equivalent to None, and asking does no harm.')
    with open(SPEC, encoding = 'utf-8') as fh:
        spec = json.load(fh)
    cur = table(repo)
    for q, ref in spec.items():
        t = cur.get(q)
        c = repo.classes.get(q)
        if t is None:
            if c is not None:
                chk.check(False, f'{q} none', c.qual, f'{q[7:]} no longer has an equivalence test')
            continue
        f = repo.find_method(c, 'is_equivalent')
        for k, v in ref.items():
            s, _, it = k.partition(': ')
            now = t.get(k)
            if now is None:
                # a different way of getting at the same attribute is as good
                a = it.split('|')[0].split('[')[0]
                alt = [t[x] for x in t if x.startswith(s + ': ') and x[len(s) + 2:].split('|')[0].split('[')[0] == a]
                now = sorted({r for x in alt for r in x}) if alt else None
                if now is None:
                    chk.check(s != 'differ', f'{q} {it}', f.loc(), f'{c.name}.is_equivalent does not compare {it} with that of the other object')
                    continue
            new = set(now) - set(v)
            if s in WHAT:
                chk.check('T' not in new, f'{q} {k}', f.loc(), f'{c.name}.is_equivalent may be True for objects which {WHAT[s]} {it}',
                          {'class': c.name, 'scenario': k, 'outcomes': now})
                chk.check(not new - {'T', 'F'}, f'{q} {k} other', f.loc(), f'{c.name}.is_equivalent may end with {", ".join(sorted(new - {"T", "F"}))} for objects which {WHAT[s]} {it}')
            elif s == 'none':
                chk.check(not new, f'{q} {k}', f.loc(), f'{c.name}.is_equivalent(None) may end with {", ".join(sorted(new))}')
            else:
                chk.check(not new, f'{q} {k}', f.loc(), f'{c.name}.is_equivalent may end with {", ".join(sorted(new))} for '
                          + ('an object and itself' if s == 'same object' else 'objects all of whose compared items are the same'))
    chk.floor('classes with an equivalence test', sum(q in cur for q in spec), 20)
