"""C10: an option which a function hands on to another function of the library keeps being handed on, under its own meaning."""

import json
import os

from sa.flow import Flows, overwrites
from sa.repo import AnalysisBroken
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c10.json')


def sname(q):
    return q[len('resqpy.'):]


def word(p):
    return f'attribute {p[1:]}' if p[0] == '@' else f'argument {p}'


def carries(s, p, q):
    """does call site s pass (anything derived from) p as q, or is p known there?"""
    return p in s.args.get(q, ()) or p in s.ctrl or p in s.opaque or '*' in s.opaque


def facts(repo, known, only=None):
    F = Flows(repo)
    out = {}
    for f in repo.all_fns():
        if f.parent is not None or (only is not None and f.qual not in only):
            continue
        by = {}
        for s in F.sites(f, known):
            by.setdefault(s.g.qual, []).append(s)
        out[f.qual] = by
    return F, out


def uses_otherwise(repo, f, g):
    """is g mentioned in f other than as the function of a call (e.g. handed to a pool or a partial)?"""
    import ast
    calls = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
    for n in ast.walk(f.node):
        nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
        if nm == g.name and id(n) not in calls:
            return True
    return False


def check(chk):
    repo = chk.repo
    chk.rule('R1: for every function f, parameter p and library function g which f calls handing p (possibly converted, defaulted or through locals) to '
             'parameter q of g: every call of g from f (calls made by helpers not in the reference included, as are calls made through dictionaries of '
             'arguments) still has p flowing into q, or is only made where p is known to be None, false or a given value. R2: such a parameter is not replaced by an unrelated value on the way, other than where it is known to be None, false or a given value. R3: where f newly calls a library function handing it '
             'parameters named as its own, they are not exchanged.')
    chk.assumptions.append('flows are flow-insensitive within a function, except that a parameter overwritten unconditionally loses its value; calls '
                           'whose target is not resolved are not judged.')
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    known = set(spec['functions'])
    F, cur = facts(repo, known)
    n = nf = 0
    for fq, gs in sorted(spec['edges'].items()):
        by = cur.get(fq)
        if by is None:
            chk.count('callers not found')
            continue
        f = repo.fns[fq]
        nf += 1
        over = overwrites(f, F.flow(f))
        for gq, edges in gs.items():
            ss = by.get(gq)
            if not ss:
                chk.count('callees no longer called')
                continue
            g = repo.fns[gq]
            other = uses_otherwise(repo, f, g)
            for e in edges:
                p, q, mode = e.split()
                if p[0] != '@' and (p not in f.params and p not in F.flow(f).params) or q not in g.params:
                    chk.count('parameters renamed or removed')
                    continue
                n += 1
                good = [s for s in ss if carries(s, p, q)]
                if mode == 'all' and len(good) < len(ss):
                    b = next(s for s in ss if not carries(s, p, q))
                    if not good and other:
                        chk.count('functions handed on by reference')
                        continue
                    got = sorted(b.pure.get(q, ()))
                    chk.bad(f'dropped {sname(fq)} {p} -> {sname(gq)} {q}', b.where,
                            f'{sname(fq)} does not pass its {word(p)} on to {sname(gq)} as {q}' + (f' (passes {"/".join(got)})' if got else ''))
                elif mode == 'some' and not good and not other:
                    chk.bad(f'dropped {sname(fq)} {p} -> {sname(gq)} {q}', ss[0].where,
                            f'{sname(fq)} no longer passes its {word(p)} on to {sname(gq)} as {q}')
                elif p in over and p not in spec['overwritten'].get(fq, ()) and any(int(x.where.rsplit(':', 1)[1]) > over[p] for x in good):
                    chk.bad(f'replaced {sname(fq)} {p} -> {sname(gq)} {q}', f'{f.path}:{over[p]}',
                            f'{sname(fq)} may replace its argument {p} by another value before passing it on to {sname(gq)} as {q}')
                else:
                    chk.ok(f'{sname(fq)} {p} -> {sname(gq)} {q}' if n % 700 == 1 else None)
    nx = 0
    for fq, by in cur.items():
        f = repo.fns[fq]
        for gq, ss in by.items():
            g = repo.fns[gq]
            for s in ss:
                for q, ps in s.pure.items():
                    ps = {p for p in ps if p[0] != '@'}
                    if len(ps) != 1 or q not in g.params:
                        continue
                    p = next(iter(ps))
                    if p == q or p in ('self', 'cls', 'model') or p not in f.params or q not in f.params:
                        continue
                    # q of g gets f's p although f has a q of its own: an exchange if g's p in turn gets f's q
                    nx += 1
                    back = {x for x in s.pure.get(p, set()) if x[0] != '@'}
                    chk.check(not (p in g.params and back == {q}) or f'{p} {q}' in spec['swaps'].get(f'{fq} {gq}', ()) or
                              f'{q} {p}' in spec['swaps'].get(f'{fq} {gq}', ()),
                              f'exchanged {sname(fq)} {p} {q} {sname(gq)}', s.where,
                              f'{sname(fq)} passes its arguments {p} and {q} to {sname(gq)} the other way round')
    chk.floor('functions handing on arguments', nf, 900)
    chk.floor('arguments handed on', n, 4000)
    if nf == 0:
        raise AnalysisBroken('no flows found')
