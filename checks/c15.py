"""C15: arrays and other containers given to, or held by objects given to, a function are not modified; copies stay copies."""

import ast
import json
import os

from sa.depend import Depend
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c15.json')


def sname(q):
    return q[len('resqpy.'):]


def public(f):
    return f.parent is None and (not f.name.startswith('_') or f.name.startswith('__') and f.name.endswith('__'))


def roots(rs, f, s):
    """roots which say something: a parameter, or an attribute of one; not an attribute which the function itself, or one it calls, assigns (a cache)."""
    out = set()
    for r in rs:
        p, _, a = r.partition('.')
        if p in f.params and '.' not in a and not a.startswith('__') and p not in s.stored.get('@' + a, ()):
            out.add(r)
    return out


def array_attrs(repo):
    """names of attributes which, somewhere in the package, are used as an array or other container."""
    out = set()
    for m in repo.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.attr in (
                    'copy', 'shape', 'ndim', 'size', 'reshape', 'flatten', 'dtype', 'append', 'T', 'astype', 'items', 'keys', 'values', 'update', 'extend'):
                out.add(n.value.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.value.attr)
            elif isinstance(n, ast.Assign) and (isinstance(n.value, (ast.List, ast.Dict, ast.ListComp, ast.DictComp)) or isinstance(n.value, ast.Call) and isinstance(
                    n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == 'np'):
                out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out


def facts(D, f, arr):
    s = D.memo[f.qual]
    own = f.params[0] if f.cls is not None and f.kind != 'static' and f.params else None
    mut = {r for r in roots(s.mut, f, s) if r != own and (r.rpartition('.')[2] in arr if '.' in r else D.is_arrayish(f, r))}
    ret = {r for r in roots(s.ret, f, s) if r != own}
    keep = {f'{a}<{r}' for a, r in s.share if a in arr and roots([r], f, s) and r != f'{own}.{a}' and (r.rpartition('.')[2] in arr if '.' in r else
            D.is_arrayish(f, r))}
    keep |= {f'{a}<{r}' for a, rs in s.keep.items() for r in roots(rs, f, s) if r != own and D.is_arrayish(f, r)}
    return mut, ret, keep


def check(chk):
    repo = chk.repo
    chk.rule('R1: no public function modifies in place (element or slice assignment, augmented assignment, in-place methods and numpy functions, directly or '
             'through functions it calls) an array or container passed to it, or held in an attribute of an object passed to it or of its own object, '
             'other than those of the reference. R2: the value a public function returns shares memory with an argument, or an attribute of one or '
             'of its object, only where it does in the reference. R3: nor is an argument that is an array kept in an attribute without being copied.')
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    D = Depend(repo).solve()
    n = 0
    arr = set(spec['*'].split())
    for f in sorted(repo.all_fns(), key = lambda f: f.qual):
        if not public(f) or f.qual not in spec:
            continue
        n += 1
        ref = [set(x.split()) for x in spec[f.qual]]
        cur = facts(D, f, arr)
        s = D.memo[f.qual]
        for r in sorted(cur[0]):
            g, node = s.mut[r]
            chk.check(r in ref[0], f'{sname(f.qual)} modifies {r}', g.loc(node) if g is not None else f.loc(),
                      f'{sname(f.qual)} modifies its argument {r} in place' if '.' not in r else f'{sname(f.qual)} modifies the array held in {r} in place')
        for r in sorted(cur[1]):
            chk.check(r in ref[1], f'{sname(f.qual)} returns {r}', f.loc(), f'the value {sname(f.qual)} returns shares its data with {r}, it used to be a copy')
        for r in sorted(cur[2]):
            a, _, b = r.partition('<')
            chk.check(r in ref[2], f'{sname(f.qual)} keeps {r}', f.loc(), f'{sname(f.qual)} keeps its argument {b} in attribute {a} without copying it')
        chk.ok()
    chk.floor('public functions', n, 1000)
