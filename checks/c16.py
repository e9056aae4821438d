"""C16: what is done for one item, or in one call, is not carried over to the next."""

import ast
import json
import os

from sa.carried import MUTATORS, carried, path
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c16.json')
MUTABLE = (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {'dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque'}


def functions(repo):
    return [f for q, f in sorted(repo.fns.items())]


def resolver(repo, f):

    def resolve(call):
        r = repo.resolve_expr(f, call.func)
        if r is not None and r[0] == 'fn':
            return r[1].node, 0
        if isinstance(call.func, ast.Attribute) and path(call.func) == f'self.{call.func.attr}' and f.cls is not None:
            g = repo.find_method(f.cls, call.func.attr)
            if g is not None:
                return g.node, 0 if g.kind == 'static' else 1
        return None

    return resolve


def tidy(c, f):
    mods = set(f.module.imports) if hasattr(f.module, 'imports') else set()
    return {v: n for v, n in c.items() if v.split('.')[0] not in mods and v not in ('np', 'log')}


def table(repo):
    out = {}
    for f in functions(repo):
        c, l = carried(f.node, resolver(repo, f))
        if any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(f.node)):
            out[f.qual] = {'carried': dict(sorted(tidy(c, f).items())), 'names': sorted(l.names)}
    return out


def mutable(e):
    return isinstance(e, MUTABLE) or isinstance(e, ast.Call) and (path(e.func) or '').split('.')[-1] in MAKERS


def own(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def changes(body):
    """(path, node): variables which are changed in place, or stored to, in body."""
    for x in body:
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            p = path(x.func.value)
            if p:
                yield p, x
        elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x
            while isinstance(b, ast.Subscript):
                b = b.value
            p = path(b)
            if p:
                yield p, x


def persistent(repo):
    """{(what holds it, function): node}: data outliving a call which functions change."""
    out = {}
    for f in functions(repo):
        mod = f.module
        body = list(own(f.node))
        glob = {n for x in body if isinstance(x, ast.Global) for n in x.names}
        local = {x.id for x in body if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob | set(f.params)
        top = {}
        for s in mod.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(t, ast.Name):
                        top[t.id] = s.value
        for x in body:
            if isinstance(x, ast.Name) and x.id in glob and isinstance(x.ctx, ast.Store):
                out.setdefault((f'{mod.name}.{x.id}', f), x)
        classes = {}
        if f.cls is not None:
            for c in repo.mro(f.cls):
                for s in c.node.body:
                    if isinstance(s, ast.Assign) and mutable(s.value):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                classes[t.id] = c
        for p, x in changes(body):
            h = p.split('.')
            if h[0] in top and h[0] not in local and (len(h) == 1 and mutable(top[h[0]]) or h[0] in glob):
                out.setdefault((f'{mod.name}.{h[0]}', f), x)
            if f.cls is not None and len(h) == 2 and h[1] in classes and (h[0] in ('cls', f.cls.name) or h[0] == 'self' and not isinstance(x, ast.Attribute) and not rebinds(repo, f.cls, h[1])):
                out.setdefault((f'{classes[h[1]].qual}.{h[1]}', f), x)
            elif len(h) == 2 and h[0] in ('cls', '__class__') and f.cls is not None:
                out.setdefault((f'{f.cls.qual}.{h[1]}', f), x)
            elif len(h) == 2 and h[0] not in local:
                r = repo.resolve_expr(f, ast.Name(h[0], ast.Load())) if h[0] not in top else None
                if r is not None and r[0] == 'cls':
                    out.setdefault((f'{r[1].qual}.{h[1]}', f), x)
        for d in f.node.decorator_list:
            t = ast.unparse(d).split('(')[0].split('.')[-1]
            if t in ('lru_cache', 'cache'):
                out.setdefault((f'results of {f.qual}', f), d)
    return out


def rebinds(repo, cls, attr):
    """does some method of the class set the attribute for the object?"""
    for c in repo.mro(cls):
        for m in c.methods.values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) and path(x) == f'self.{attr}':
                    return True
    return False


def defaults(f):
    """parameters with a default value which can be changed in place, and how it would be."""
    for p in f.params:
        d = f.default_of(p)
        if d is None or not (mutable(d) or isinstance(d, ast.Call)):
            continue
        body = list(own(f.node))
        again = [x.lineno for x in body if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store)]
        hit = None
        for q, x in changes(body):
            if q == p and not any(n <= x.lineno for n in again):
                hit = (x, 'changed in place')
        for x in body:
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == p and not again:
                hit = (x, 'returned')
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p and not any(n <= x.lineno for n in again) \
               and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets):
                hit = (x, 'kept')
        yield p, hit


def lazily(f, l, ref):
    """variables newly carried over, set for an early item where not yet set, from what belongs to that item."""
    out = []
    for v, d in l.found.items():
        if v in ref['names'] or '.' in v:
            continue
        loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While))]
        for i in d:
            loop = loops[i]
            per = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)} if isinstance(loop, ast.For) else set()
            for s in ast.walk(loop):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) for t in s.targets) and {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & per:
                    per |= {t.id for t in s.targets if isinstance(t, ast.Name) and t.id != v}
            for s in ast.walk(loop):
                if isinstance(s, ast.If) and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(s.test)):
                    for a in s.body:
                        if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in a.targets) and {x.id for x in ast.walk(a.value) if isinstance(x, ast.Name)} & per \
                           and 'None' in ast.unparse(s.test):
                            out.append((v, a))
    return out


def check(chk):
    repo = chk.repo
    chk.rule('R1: dataflow round every loop: a variable, or attribute, set or changed in one iteration and still so when read in a later one is carried over the loop. None is '
             'carried over more loops than in the reference, in which what is carried was reviewed (running totals, previous points, states of readers and the like). '
             'R2: no function changes data that outlives the call (module and class level data, default values of arguments, cached results), other than the reviewed settings.')
    with open(SPEC, encoding = 'utf-8') as fh:
        spec = json.load(fh)
    n = 0
    for f in functions(repo):
        ref = spec['loops'].get(f.qual)
        if ref is None:
            continue
        c, l = carried(f.node, resolver(repo, f))
        n += 1
        c = tidy(c, f)
        for v in sorted(l.names & set(ref['names']) | {x for x in c if '.' in x}):
            now, was = c.get(v, 0), ref['carried'].get(v, 0)
            if '.' in v and v.split('.')[0] not in ref['names']:
                continue
            if now <= was:
                chk.ok({'function': f.qual, 'variable': v, 'carried over loops': now} if now else None)
                continue
            rd = list(l.found[v].values())[-1]
            chk.check(False, f'{f.qual[7:]} {v}', f.loc(rd), f'{f.qual[7:]}: {v} as left by one iteration of a loop is made use of in a later one')
        for v, a in lazily(f, l, ref):
            chk.check(False, f'{f.qual[7:]} {v}', f.loc(a), f'{f.qual[7:]}: {v} is set for the first item of a loop and made use of for later ones')
    allowed = {tuple(x) for x in spec['persistent']}
    for (what, f), x in persistent(repo).items():
        fam = f.module.name
        chk.check((what, fam) in allowed, f'{what} {f.qual[7:]}', f.loc(x), f'{f.qual[7:]} changes {what[7:] if what.startswith("resqpy.") else what}, which outlives the call', {'data': what, 'changed by': f.qual})
    k = 0
    for f in functions(repo):
        for p, hit in defaults(f):
            k += 1
            if hit is None:
                chk.ok({'function': f.qual, 'default value of': p} if k % 10 == 1 else None)
            else:
                chk.check(False, f'{f.qual[7:]} default {p}', f.loc(hit[0]), f'{f.qual[7:]}: the default value of {p} is {hit[1]}, and so shared by later calls')
    chk.floor('functions with loops', n, 600)
    chk.floor('default values which could be changed', k, 40)
