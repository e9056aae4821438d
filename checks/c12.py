"""C12: default values: documented ones are in force, passed-on options keep one default, methods of a family share theirs."""

import ast
import json
import os
import re

from sa.flow import Flows
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c12.json')
DOC = re.compile(r'^\s*[-*]?\s*(\w+)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)', re.M)
DEF = re.compile(r'\bdefault(?:s to|ing to|:)?\s*(?:is\s|=\s*)?(.+)$', re.S)
WORDS = {'zero': 0, 'nan': float('nan'), 'true': True, 'false': False, 'none': None, 'empty string': '', 'empty': '', 'debug': 'logging.DEBUG', 'zeros': None}


class Text:
    """a default which is not a literal: compared by spelling."""

    def __init__(self, t):
        self.t = t


def value(e):
    """comparable value of a default expression."""
    try:
        v = ast.literal_eval(e)
    except Exception:
        s = ast.unparse(e)
        return float('nan') if s in ('np.nan', 'np.NaN', 'math.nan', "float('nan')") else Text(s)
    return v


def same(a, b):
    if isinstance(a, Text) or isinstance(b, Text):
        return isinstance(a, Text) and isinstance(b, Text) and (a.t == b.t or a.t.split('.')[-1] == b.t.split('.')[-1])
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return a == b and type(a) in (int, float) and type(b) in (int, float) or a == b and type(a) is type(b)


def resolves_to(f, p, v):
    """is v the value the function gives p when p is absent?"""
    for n in ast.walk(f.node):
        vals = []
        if isinstance(n, ast.If) and p in {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}:
            vals = [a.value for a in ast.walk(n) if isinstance(a, ast.Assign)]
        elif isinstance(n, ast.IfExp) and p in {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}:
            vals = [n.body, n.orelse]
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and isinstance(n.values[0], ast.Name) and n.values[0].id == p:
            vals = n.values[1:]
        for x in vals:
            if same(value(x), v):
                return True
    return False


def agree(f, p, a, g, q, b):
    """a: default of p in f; b: default of q in g."""
    if same(a, b):
        return True
    empty = (None, {}, [], ())
    if any(a is x or a == x and type(a) is type(x) for x in empty) and any(b is x or b == x and type(b) is type(x) for x in empty):
        return True     # absent, or empty
    return a is None and f is not None and resolves_to(f, p, b) or b is None and g is not None and resolves_to(g, q, a)


def documented(f):
    for m in DOC.finditer(f.doc()):
        p, t = m.group(1), m.group(2)
        k = DEF.search(t.strip())
        if p not in f.params or not k:
            continue
        txt = ' '.join(k.group(1).split()).rstrip('.;,')
        try:
            v = ast.literal_eval(txt)
        except Exception:
            if txt.lower() in WORDS:
                v = WORDS[txt.lower()]
                if txt.lower() == 'zeros':
                    continue
                if txt.lower() == 'debug':
                    v = Text('logging.DEBUG')
            elif re.fullmatch(r'[A-Za-z_]\w*(\.\w+)*', txt):
                v = Text(txt)
            else:
                continue        # prose
        yield p, txt, v


def passed_on(repo, F, fns):
    """(f, p, g, q, default in f, default in g) for arguments handed straight on under the same name."""
    known = set(repo.fns)
    for f in fns:
        for s in F.sites(f, known):
            for q, ps in s.pure.items():
                if ps != {q} or q not in f.params or q not in s.g.params:
                    continue
                a, b = f.default_of(q), s.g.default_of(q)
                if a is not None and b is not None:
                    yield f, s.g, q, value(a), value(b)


def families(fns):
    fam = {}
    for f in fns:
        for p in f.params:
            d = f.default_of(p)
            if d is not None and f.cls is not None:
                fam.setdefault((f.name, p), []).append((f, value(d)))
    out = {}
    for k, v in fam.items():
        if len(v) < 5:
            continue
        groups = []
        for f, d in v:
            for g in groups:
                if agree(None, None, g[0], None, None, d):
                    g[1].append(f)
                    break
            else:
                groups.append((d, [f]))
        groups.sort(key = lambda g: -len(g[1]))
        if len(groups[0][1]) * 5 >= len(v) * 4:
            out[k] = groups
    return out


def show(v):
    return v.t if isinstance(v, Text) else repr(v)


def sname(q):
    return q[len('resqpy.'):]


def check(chk):
    repo = chk.repo
    chk.rule('R1: a default value stated in the documentation of an argument is the one in the signature (or the one the body substitutes for an absent '
             'value). R2: where a function hands an argument straight on to a library function, under the same name, and both have a default for it, the '
             'defaults agree (reviewed exceptions). R3: methods of the same name have the same default for the same argument where at least five classes '
             'have them and four in five agree (reviewed exceptions).')
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    fns = [f for f in repo.all_fns() if f.parent is None]
    n = 0
    for f in fns:
        for p, txt, v in documented(f):
            n += 1
            d = f.default_of(p)
            key = f'{sname(f.qual)} {p}'
            got = None if d is None else value(d)
            ok = d is not None and (same(got, v) or got is None and (v is not None and resolves_to(f, p, v))) or key in spec['documented']
            chk.check(ok, f'{key} documented', f.loc(), f'the default of argument {p} of {sname(f.qual)} is {"absent" if d is None else show(got)}, it is documented to be {txt}',
                      f'{key}: {txt}')
    chk.floor('documented defaults', n, 600)
    F = Flows(repo)
    rev = set(spec['passed_on'])
    n = 0
    seen = set()
    for f, g, q, a, b in passed_on(repo, F, fns):
        key = f'{sname(f.qual)} {sname(g.qual)} {q} {show(a)} {show(b)}'
        if key in seen:
            continue
        seen.add(key)
        n += 1
        chk.check(agree(f, q, a, g, q, b) or key in rev, key, f.loc(),
                  f'argument {q} has default {show(a)} in {sname(f.qual)}, and {show(b)} in {sname(g.qual)} which it is handed on to')
    chk.floor('defaults of arguments handed on', n, 900)
    n = 0
    for (m, p), groups in sorted(families(fns).items()):
        n += 1
        for d, fs in groups[1:]:
            for f in fs:
                key = f'{sname(f.qual)} {p} {show(d)}'
                chk.check(key in set(spec['families']) or groups[0][0] is None and resolves_to(f, p, d), key, f.loc(),
                          f'argument {p} of {sname(f.qual)} has default {show(d)}; {m}() of {len(groups[0][1])} other classes has {show(groups[0][0])}')
        chk.ok(f'{m} {p}: {show(groups[0][0])} in {len(groups[0][1])} classes')
    chk.floor('method families', n, 15)
