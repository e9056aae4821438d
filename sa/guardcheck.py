"""Conditions of the effects that matter to a property, for all functions of the package which have them, against the reviewed reference."""

import ast
import json
import os
import sys

from .guards import Walker, atoms, compare, size, tup
from .report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'guards.json')
ROLES = {'sourceObject', 'destinationObject', 'mlToExternalPartProxy', 'externalPartProxyToMl'}
CAT = {'parts_forest', 'rels_forest', 'other_forest', 'uuid_part_dict', 'uuid_rels_dict', 'object_parts', 'uuid_part_dict'}
MUT = {'add', 'discard', 'remove', 'append', 'pop', 'clear', 'update', 'insert', 'extend', 'difference_update', 'setdefault', 'popitem'}
MAXSIZE = 400


def _name(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def _attrs(e):
    return {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}


def relations(fn, n, text):
    if isinstance(n, ast.Call):
        nm = _name(n)
        if nm in ('create_reciprocal_relationship', '_create_reciprocal_relationship', 'create_reciprocal_relationship_uuids'):
            return 'relate ' + ' & '.join(text(a) for a in n.args if not isinstance(a, ast.Starred))[-230:]
        if nm == 'SubElement' and len(n.args) > 1 and 'Relationship' in ast.unparse(n.args[1]):
            return 'relationship element in ' + text(n.args[0])[-150:]
    if isinstance(n, ast.Assign):
        c = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        if c and set(c) <= ROLES:
            return 'roles ' + ast.unparse(n.targets[0]) + ' = ' + ','.join(c)
    return None


def catalogue(fn, n, text):
    t = op = None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
        t, op = n.func.value, n.func.attr
        x = text(t)
        if any('.' + c in x for c in CAT):
            return f'{op} {x[-150:]} {",".join(text(a) for a in n.args)[:80]}'
    if isinstance(n, ast.Call) and _name(n) == 'write_xml':
        return 'write_xml ' + ' & '.join(text(a) for a in n.args[1:2])[-150:]
    tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else []
    for t in tg:
        if isinstance(t, ast.Subscript) and _attrs(t) & CAT:
            return f'{"del" if isinstance(n, ast.Delete) else "set"} {text(t)[-200:]}'
    return None


def modified(fn, n, text):
    if isinstance(n, ast.Call) and _name(n) == 'set_modified':
        return 'flag ' + ('down' if any(isinstance(a, ast.Constant) and a.value is False for a in list(n.args) + [k.value for k in n.keywords]) else 'up')
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == 'modified':
        return 'flag = ' + text(n.value)[:60]
    return None


def hdf5(fn, n, text):
    if isinstance(n, ast.Call):
        nm = _name(n)
        if nm in ('create_dataset', 'create_group', 'register_dataset', 'require_dataset'):
            return nm + ' ' + ' & '.join(text(a) for a in n.args)[:200]
        if nm in ('h5_array_element', 'load_hdf5_array'):
            a = [k.value for k in n.keywords if k.arg == 'array_attribute'] or n.args[2:3]
            return 'load ' + ','.join(text(x) for x in a) if a else None
        if nm in ('create_hdf5_dataset_ref', '_create_hdf5_dataset_ref'):
            return 'refer ' + ' & '.join(text(a) for a in n.args[1:3])[:200]
        if nm == 'write' and isinstance(n.func, ast.Attribute) and 'H5Register' in text(n.func.value):
            return 'write h5 register'
    if isinstance(n, ast.Assign) and fn.module.name.endswith(('write_hdf5', '_hdf5')):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                return 'set ' + text(t)[:200]
    return None


KINDS = {'C02': (hdf5, ('resqpy',)), 'C03': (relations, ('resqpy',)), 'C05': (catalogue, ('resqpy.model',)), 'C06': (modified, ('resqpy',))}


def sweep(repo, prop):
    """{function: {effect: (formula, where)}}"""
    sys.setrecursionlimit(20000)
    eff, mods = KINDS[prop]
    fns = [f for f in repo.fns.values() if any(f.module.name == m or f.module.name.startswith(m + '.') for m in mods)]
    quick = lambda e: ast.unparse(e)
    direct = set()
    for f in fns:
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Call, ast.Assign, ast.Delete)):
                hit = eff(f, n, quick)
                if hit is None and prop == 'C05' and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    hit = isinstance(n.func.value, (ast.Name, ast.Subscript)) and bool(_attrs(f.node) & CAT)
                if hit:
                    direct.add(f.qual)
    # helpers within the module of a function with effects are opened, where they have effects
    opens = {}

    def op(t):
        return t.qual in direct and (t.name.startswith('_') or t.parent is not None)
    out = {}
    walk = Walker(repo, eff, op)
    names = {}
    for f in fns:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                names.setdefault(_name(n), set()).add(f.qual)
    roots = set(direct)
    for d in direct:
        f = repo.fns[d]
        if op(f):
            roots |= {q for q in names.get(f.name, ()) if repo.fns[q].module is f.module}
    for q in sorted(roots):
        f = repo.fns[q]
        w = Walker(repo, eff, op)
        try:
            w.run(f)
        except RecursionError:
            continue
        d = {k: (v, w.where[k]) for k, v in w.eff.items() if size(v) <= MAXSIZE and len(atoms(v)) <= 16}
        if d:
            out[f.short] = d
    return out


def check_guards(chk, prop, floor):
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)[prop]
    cur = sweep(chk.repo, prop)
    n = 0
    for f, b in sorted(spec.items()):
        for k, bf in sorted(b.items()):
            c = cur.get(f, {}).get(k)
            if c is None:
                continue
            n += 1
            d = compare(tup(bf), c[0])
            chk.check(d is None, f'when {f} {k}'[:200], c[1], f'{f}: the condition for "{k[:110]}" has changed: {d}')
    chk.count('effects with conditions compared', n)
    chk.floor('effects with conditions compared', n, floor)
