"""C11: every argument a function accepts keeps having its influence on the function's outcome."""

import ast
import json
import os
import re

from sa.depend import Depend, edges, own_attrs
from sa.flow import overwrites
from sa.repo import AnalysisBroken
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c11.json')
KIND = {'d': 'contributes to', 'c': 'has a part in deciding', 'm': 'is reflected, on every path, in'}


def sname(q):
    return q[len('resqpy.'):]


def outname(o):
    if o == 'return':
        return 'the value returned'
    if o.startswith('return#'):
        return f'component {o[7:]} of the value returned'
    if o == 'raise':
        return 'whether an exception is raised'
    if o == 'effect':
        return 'what is written or changed elsewhere'
    if o.startswith('mut:'):
        return f'what is put in argument {o[4:]}'
    return f'attribute {o[1:]} being set'


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def documented_unused(f, p):
    m = re.search(r'^\s*[-*]?\s*%s\b.*(?:\n(?!\s*[-*]?\s*\w+ \(|\s*\n).*)*' % re.escape(p), f.doc(), re.M)
    return bool(m and re.search(r'ignored|not (yet )?(in use|used|needed|implemented|supported)|no longer|unused|deprecated|redundant|obsolete|compatib|no effect|retained',
                                m.group(0), re.I)) or bool(re.search(r'\b%s (argument|parameter)?[^.\n]*(ignored|not (yet )?(in use|used)|no longer|unused)' % re.escape(p),
                                                                     ' '.join(f.doc().split())))


def silent(f, s):
    """parameters of f which nothing depends on."""
    if stub(f):
        return []
    live = {p for o, ds in s.outs.items() for p, k in ds if k != 'm'}
    outp = {o[4:] for o in s.outs if o.startswith('mut:')}
    own = set(f.params[:1]) if f.cls is not None and f.kind != 'static' else set()
    return [p for p in f.params if p not in live and p not in outp and p not in own and not p.startswith('_')]


def pack(es, f, D):
    out = {}
    for o, p, k in es:
        if o.startswith('mut:') and not D.is_arrayish(f, o[4:]):
            continue
        out.setdefault(o, {}).setdefault(p, set()).add(k)
    return {o: ' '.join(f'{p}:{"".join(sorted(ks))}' for p, ks in sorted(d.items())) for o, d in sorted(out.items())}


def unpack(d):
    for o, t in d.items():
        for x in t.split():
            p, ks = x.split(':')
            for k in ks:
                yield o, p, k


def lost_edges(ref, cur, params):
    """reference edges which no longer hold, allowing for equivalent forms."""
    outs = {o for o, _, _ in cur}
    refset = set(ref)
    gained = cur - refset
    newouts = {o for o, _, _ in gained} - {o for o, _, _ in refset}
    lost = []
    for o, p, k in sorted(refset - cur):
        if p not in params:
            continue
        if k == 'm' and not o.startswith('return'):
            continue
        o2 = o
        if o.startswith('return#') and not any(x.startswith('return#') for x in outs):
            o2 = 'return'
            if (o2, p, k) in cur or (k == 'm' and ((o2, p, 'd') in cur)):
                continue
        if k in 'cd' and (o2, p, 'cd'[k == 'c']) in gained:
            continue
        if o in ('effect', 'raise') and any((o, p, x) in cur for x in 'cd') or k == 'c' and (o2, p, 'd') in cur:
            continue
        if o[0] == '@' and o not in outs and any(n[0] == '@' and all((n, p2, k2) in cur for o3, p2, k2 in refset if o3 == o) for n in newouts):
            continue
        lost.append((o, p, k))
    return lost


def check(chk):
    repo = chk.repo
    chk.rule('R1: every parameter of every function influences something (value returned, attribute set, argument or file written, exception), '
             'documented exceptions and a reviewed list apart. R2: for every function, parameter and outcome of the reference (outcome = value returned, each '
             'component of a returned tuple, each attribute set, each argument modified, exceptions, other effects), the parameter still contributes to '
             'it / decides it / is reflected in it on every path, as in the reference. R3: a parameter is not overwritten, under some condition, by an '
             'unrelated value.')
    chk.assumptions.append('the outcome of a call whose target is not known depends on all its arguments; influence is judged over all paths together, '
                           'except for the every-path relation to returned values.')
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    D = Depend(repo).solve()
    fns = {f.qual: f for f in repo.all_fns() if f.parent is None}
    chk.count('functions analysed', len(fns))
    ignored = set(spec['silent'])
    for q, f in sorted(fns.items()):
        sil = set(silent(f, D.memo[q]))
        for p in f.params:
            if p not in sil:
                chk.ok()
                continue
            key = f'{sname(q)} {p}'
            if key in ignored or (f.name.startswith('_') and not f.name.startswith('__init__') and q not in spec['edges']):
                chk.ok()
            elif documented_unused(f, p):
                chk.ok(f'{key}: documented as not used')
            else:
                chk.bad(f'{key} has no effect', f.loc(), f'argument {p} of {sname(q)} has no influence on anything the function returns, sets, writes or raises')
    # R2
    lost = {}
    nref = 0
    for q, packed in sorted(spec['edges'].items()):
        f = fns.get(q)
        if f is None:
            chk.count('functions no longer present')
            continue
        ref = list(unpack(packed))
        nref += len(ref)
        cur = edges(D.memo[q], own_attrs(repo, f))
        bad = lost_edges(ref, cur, set(f.params) | {x.arg for x in (f.node.args.vararg, f.node.args.kwarg) if x})
        chk.obligations += len(ref) - len(bad)
        chk.discharged += len(ref) - len(bad)
        if bad:
            lost[q] = bad
    if nref < 40000:
        raise AnalysisBroken(f'only {nref} influences of the reference could be compared')
    reach = {}

    def below(q, seen):
        for g in D.graph.get(q, ()):
            if g not in seen:
                seen.add(g)
                below(g, seen)
        return seen

    for q, bad in sorted(lost.items()):
        if any(g in lost for g in below(q, set()) if g != q and not (q in below(g, set()))):
            chk.count('functions affected through their callees')
            continue
        f = fns[q]
        for o, p, k in bad:
            chk.bad(f'{sname(q)} {p} {o} {k}', f.loc(), f'argument {p} of {sname(q)} no longer {KIND[k]} {outname(o)}')
    _ = reach
    # R3
    known = {x: set(v) for x, v in spec['overwritten'].items()}
    for q, f in sorted(fns.items()):
        if q not in spec['edges']:
            continue
        for p, line in overwrites(f, D.flow(f)).items():
            if p in known.get(q, ()) or p not in f.params:
                chk.ok()
            elif f'{sname(q)} {p}' not in ignored:
                chk.bad(f'{sname(q)} {p} overwritten', f'{f.path}:{line}', f'argument {p} of {sname(q)} is replaced by a value which does not depend on it')
    chk.samples += [f'{sname(q)}: {o} <- {t}' for q in list(spec['edges'])[100:500:100] for o, t in list(spec['edges'][q].items())[:2]][:8]
