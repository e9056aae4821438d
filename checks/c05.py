"""C05: the views of a model's catalogue stay mutually consistent under every public operation."""

import ast
import json
import os

from sa.catops import defaults, model_class, operations, projected
from sa.relsets import MIRROR, names_in, rename, walks
from sa.guardcheck import check_guards
from sa.repo import AnalysisBroken
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c05.json')
EFFECTS = ['P+', 'P-', 'R+', 'R-', 'OT+', 'OT-', 'U+', 'U-', 'X+', 'X-', 'X+0', 'X+1', 'X+2', 'X-0', 'X-1', 'X-2', 'O+', 'O-', 'M+', 'M-', 'RT', 'X~', 'M~', 'XR']
# if the first happens then so must the second (where it does in the reviewed tree)
PAIRS = [('P+', 'U+'), ('P+', 'M+'), ('P+', 'X+'), ('P+', 'R+'), ('P+', 'O+'), ('U+', 'P+'), ('O+', 'P+'), ('M+', 'P+'), ('OT+', 'M+'), ('OT+', 'R+'),
         ('R+', 'M+'), ('P-', 'U-'), ('P-', 'O-'), ('P-', 'X-'), ('P-', 'M-'), ('P-', 'R-'), ('U-', 'P-'), ('O-', 'P-'), ('X-', 'P-'),
         ('M-', 'P-'), ('R-', 'P-'), ('R-', 'M-'), ('OT-', 'M-'), ('RT', 'X+'), ('X+0', 'X+1'), ('X+1', 'X+0'), ('X+0', 'X-2'), ('X+1', 'X-2'),
         ('X-0', 'X-1'), ('X-1', 'X-0'), ('P+', 'RT'), ('P-', 'X~'), ('P-', 'M~'), ('P+', 'X~'), ('P+', 'M~'), ('RT', 'X~'), ('P+', 'XR'), ('X+2', 'RT')]


def modes(f):
    d = defaults(f)
    return [('any', {})] + ([('default', d)] if d else [])


def external(fn, test):
    """parts standing for hdf5 files hold no references."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.In) and \
            isinstance(test.left, ast.Constant) and 'EpcExternalPart' in str(test.left.value):
        return {'XR'}, set()
    return None


def op_facts(repo, only=None):
    """op -> mode -> {'may': [...], 'must': [...], 'pairs': [...]}"""
    out = {}
    ops = operations(repo)
    for found in (True, False):
        engines = [(pr, projected(repo, (lambda pr: lambda e: e if e in pr or e in ('X+?', 'X-?') else None)(pr), found, branch=external)) for pr in PAIRS]
        single = {e: projected(repo, (lambda k: lambda e: e if e == k else None)(e), found) for e in EFFECTS + ['X+?', 'X-?']}
        for name, f in ops.items():
            if only is not None and name not in only:
                continue
            for mode, b in modes(f):
                may, must = [], []
                for e in EFFECTS + ['X+?', 'X-?']:
                    s = single[e].summary(f, b).normal
                    if any(e in x for x in s):
                        may.append(e)
                        if all(e in x for x in s):
                            must.append(e)
                if not any(e[1] not in '~R' for e in may):
                    continue
                pairs = []
                for (a, c), p in engines:
                    if a in may and c in may:
                        s = p.summary(f, b).normal
                        if all(c in x for x in s if a in x):
                            pairs.append(f'{a} {c}')
                out.setdefault(name, {})[f'{mode} {"found" if found else "any"}'] = {'may': may, 'must': must, 'pairs': pairs}
    return out


# ---- relationship queries --------------------------------------------------------------------------------------------------------------

QUERIES = {'uuids_as_int_related_to_uuid': {}, 'uuids_as_int_referenced_by_uuid': {}, 'uuids_as_int_referencing_uuid': {},
           'uuids_as_int_softly_related_to_uuid': {}, 'parts_list_filtered_by_related_uuid': {}, 'parts_list_filtered_by_supporting_uuid': {}}


def query_reads(repo, f):
    """which relation sets a query reads: a set of indices; and names of parameters used as an index."""
    from sa.relsets import Walk
    m = model_class(repo)
    seen, out, work = set(), set(), [f]
    while work:
        g = work.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        w = Walk(g)
        env = dict(w.env)
        unpacked = {n: v for n, v in env.items() if isinstance(v, tuple)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and w.entry(n.value) is not None:
                if isinstance(n.slice, ast.Constant):
                    out.add(str(n.slice.value))
                else:
                    out.add('by argument')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in unpacked:
                out.add(str(unpacked[n.id][1]))
            elif isinstance(n, ast.Call):
                ent = repo.resolve_expr(g, n.func)
                t = ent[1] if ent is not None and ent[0] == 'fn' else None
                if t is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'model'):
                    t = repo.find_method(m, n.func.attr)
                if t is not None and t.module.name.startswith('resqpy.model'):
                    work.append(t)
                if any(isinstance(a, ast.Starred) and w.entry(a.value) is not None for a in n.args):
                    out |= {'0', '1', '2'}
    return sorted(out)


def query_facts(repo):
    ops = operations(repo)
    return {n: query_reads(repo, ops[n]) for n in QUERIES if n in ops}


# ---- mirrored additions and removals -----------------------------------------------------------------------------------------------------

def callers(repo, W):
    """callee qual -> [(caller walk, call node, substitution)]"""
    m = model_class(repo)
    out = {}
    for q, w in W.items():
        for call, pos, kw in w.calls:
            f = call.func
            ent = repo.resolve_expr(w.fn, f)
            t = ent[1] if ent is not None and ent[0] == 'fn' else None
            if t is None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'model'):
                t = repo.find_method(m, f.attr)
            if t is None or t.qual not in W:
                continue
            names = list(t.params)
            if t.kind in ('method', 'class') and names[:1] in (['self'], ['cls']):
                names = names[1:]
            sub = {names[i]: v for i, v in pos.items() if i < len(names)}
            sub.update(kw)
            out.setdefault(t.qual, []).append((w, sub))
    return out


def paired(ev, events):
    return any(e.op == ev.op and e.idx == MIRROR.get(ev.idx) and e.key == ev.val and e.val == ev.key for e in events)


def mirror(chk, repo):
    W = walks(repo)
    C = callers(repo, W)
    class_ = type('E', (), {})

    def lifted(ev, sub):
        e = class_()
        e.op, e.idx, e.fn, e.line, e.loop = ev.op, ev.idx, ev.fn, ev.line, ev.loop
        e.key, e.val = rename(ev.key, sub), rename(ev.val, sub)
        return e

    memo = {}

    def all_events(q, depth=0):
        """events of a function including those of the functions it calls, in its own terms."""
        if q in memo:
            return memo[q]
        memo[q] = []
        out = list(W[q].events)
        if depth < 6:
            for cq, cs in C.items():
                for w, sub in cs:
                    if w.fn.qual == q and cq != q:
                        out += [lifted(e, sub) for e in all_events(cq, depth + 1)]
        memo[q] = out
        return out

    def unresolved(q, ev, depth=0):
        """public roots at which an event stays without its mirror image."""
        if paired(ev, all_events(q)):
            return []
        cs = C.get(q, [])
        if not cs or depth > 6:
            return [q]
        bad = []
        for w, sub in cs:
            if w.fn.qual != q:
                bad += unresolved(w.fn.qual, lifted(ev, sub), depth + 1)
        return bad

    n = 0
    for q, w in sorted(W.items()):
        for ev in w.events:
            n += 1
            if ev.loop is not None and ev.loop[1] is not None:
                lk, li = ev.loop[1]
                chk.check(ev.idx == MIRROR.get(li) and ev.val == lk, f'mirror removal {w.fn.short} {ev.idx} {li}', w.fn.loc(),
                          f'{w.fn.short}: objects in relation set {li} of one object have it taken out of their set {ev.idx}, where it is not '
                          f'recorded (or another object is taken out)')
                continue
            if ev.op == 'remove' and ev.idx == 2:
                continue        # taking out a soft relation which became a reference: decided by the path effects
            twin = next((x for x in w.events if x is not ev and x.op == ev.op and paired(ev, [x])), None)
            if twin is not None:
                own = names_in(ev.key) | names_in(ev.val)
                more = ev.guard - twin.guard - own
                chk.check(not more, f'mirror condition {w.fn.short} {ev.op} {ev.idx}', w.fn.loc(),
                          f'{w.fn.short}: {ev.op} of [{ev.key}][{ev.idx}] {ev.val} at line {ev.line} depends on {", ".join(sorted(more))}, its mirror '
                          'image for the other object does not')
            bad = unresolved(q, ev)
            # when loading, soft relations are added from each object's own relationship file, which are themselves mirrored
            bad = [b for b in bad if not (ev.idx == 2 and ev.op == 'add' and b.rsplit('.', 1)[-1] in ('load_epc', '__init__'))]
            chk.check(not bad, f'mirror {w.fn.short} {ev.op} {ev.idx}', w.fn.loc(),
                      f'{w.fn.short}: {ev.op} of [{ev.key}][{ev.idx}] {ev.val} at line {ev.line} has no mirror image for the other object',
                      sample=f'{w.fn.short}: {ev.op} in set {ev.idx} mirrored in set {MIRROR.get(ev.idx)}')
            if ev.op == 'add' and ev.idx == 2:
                have = {rs[1] for rs, v in w.tests}
                for cq, cs in C.items():
                    if any(ww.fn.qual == q for ww, _ in cs):
                        have |= {rs[1] for rs, v in W[cq].tests}
                for ww, _ in C.get(q, []):
                    have |= {rs[1] for rs, v in ww.tests}
                chk.check({0, 1} <= have, f'soft guard {w.fn.short}', w.fn.loc(),
                          f'{w.fn.short}: a soft relation is added without testing that the objects are not related by reference in either direction')
        for k in w.pops:
            n += 1
            reach = [q]
            for a in list(reach):
                reach += [cq for cq, cs in C.items() if any(ww.fn.qual == a for ww, _ in cs)]
                reach += [ww.fn.qual for ww, _ in C.get(a, [])]
            shapes, unknown = set(), False
            for a in reach:
                for ev in W[a].events:
                    if ev.op == 'remove' and ev.loop is not None and ev.loop[1] is not None:
                        shapes.add((ev.loop[1][1], ev.idx))
                unknown = unknown or loose_removal(W[a].fn)
            if unknown:
                chk.count('removal loops with computed set index, not judged')
                continue
            chk.check({(0, 1), (1, 0), (2, 2)} <= shapes, f'removal incomplete {w.fn.short}', w.fn.loc(),
                      f'{w.fn.short}: the entry of an object is removed without removing the object from the sets of all of its relatives')
    chk.floor('relation set changes', n, 6)


def loose_removal(fn):
    """does a function remove from sets chosen by a computed index?"""
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('remove', 'discard') and \
                isinstance(n.func.value, ast.Subscript) and not isinstance(n.func.value.slice, ast.Constant):
            return True
    return False


def check(chk):
    repo = chk.repo
    chk.rule('R1 (path-effect analysis, helpers inlined): each public model operation still has every catalogue effect it had (parts, '
             'relationship parts, other parts, uuid index, relation sets, object list, content types tree), effects it always had it still '
             'always has, and pairs of effects that belong together (e.g. part and uuid index entry, part and content types entry, removal '
             'of a part and of its relation entry) occur on the same paths. R2 each addition to or removal from a relation set is mirrored '
             'for the other object, by symbolic comparison of keys across calls; soft relations are only added when neither object refers '
             'to the other; deleting an object removes it from all three sets of its relatives. R3 each relationship query reads the sets '
             'it stands for. R4 catalogue entries have their layout.')
    chk.assumptions.append('paths which raise an exception are not judged; the catalogue dictionaries are only changed within the model package '
                           '(checked).')
    if not os.path.exists(SPEC):
        raise AnalysisBroken('no spec/c05.json')
    spec = json.load(open(SPEC, encoding='utf-8'))
    ops = operations(repo)
    got = op_facts(repo, only=set(spec['ops']))
    n = 0
    for name, ms in sorted(spec['ops'].items()):
        f = ops.get(name)
        if not chk.check(f is not None, f'missing {name}', 'resqpy/model/_model.py', f'public model operation {name}() is gone'):
            continue
        for mode, w in sorted(ms.items()):
            g = got.get(name, {}).get(mode, {'may': [], 'must': [], 'pairs': []})
            gmay, gmust, gp = set(g['may']), set(g['must']), set(g['pairs'])
            for e in w['may']:
                if e in ('X+?', 'X-?') or (len(e) == 3 and e[2] in '012' and e[:2] + '?' in gmay):
                    continue
                n += 1
                chk.check(e in gmay, f'effect {name} {e}', f.loc(), f'{name}() [{mode}] no longer has the effect {WORDS.get(e, e)}')
            for e in w['must']:
                if e not in gmay or (len(e) == 3 and e[2] in '012' and e[:2] + '?' in gmay):
                    continue
                n += 1
                chk.check(e in gmust, f'always {name} {e}', f.loc(), f'{name}() [{mode}] no longer always has the effect {WORDS.get(e, e)}')
            for p in w['pairs']:
                a, b = p.split()
                if a not in gmay or b not in gmay or any(len(e) == 3 and e[2] in '012' and e[:2] + '?' in gmay for e in (a, b)):
                    continue
                n += 1
                chk.check(p in gp, f'pair {name} {p}', f.loc(),
                          f'{name}() [{mode}] has a path with {WORDS.get(a, a)} but without {WORDS.get(b, b)}',
                          sample=f'{name} [{mode}]: {WORDS.get(a, a)} => {WORDS.get(b, b)}')
    chk.floor('operation effect obligations', n, 150)
    mirror(chk, repo)
    for q, want in sorted(spec['queries'].items()):
        f = ops.get(q)
        have = query_reads(repo, f) if f is not None else []
        if f is not None and (not have or 'by argument' in set(have) - set(want)):
            chk.count('queries not judged')
            continue
        chk.check(have == want, f'query {q}', f.loc() if f else 'resqpy/model', f'{q}() reads relation sets {have}, it stands for {want}',
                  sample=f'{q} reads {want}')
    layout(chk, repo)
    chk.rule('G: each of the effects on which the property rests happens under the reviewed condition (boolean formulas over normalised tests, compared by truth table).')
    check_guards(chk, 'C05', 100)


WORDS = {'P+': 'part added', 'P-': 'part removed', 'R+': 'relationship part added', 'R-': 'relationship part removed', 'OT+': 'other part added',
         'OT-': 'other part removed', 'U+': 'uuid index entry added', 'U-': 'uuid index entry removed', 'X+': 'relation entries added',
         'X-': 'relation entries removed', 'O+': 'object list entry added', 'O-': 'object list entry removed', 'M+': 'content types entry added',
         'M-': 'content types entry removed', 'RT': 'relationship node added or removed', 'X+0': 'referenced object added',
         'X+1': 'referring object added', 'X+2': 'soft relation added', 'X-0': 'referenced object removed', 'X-1': 'referring object removed',
         'X-2': 'soft relation removed', 'X~': 'relation entries consulted', 'M~': 'content types tree consulted', 'XR': 'references in the xml recorded as relations'}
LENGTH = {'parts_forest': 3, 'rels_forest': 2, 'other_forest': 2, 'uuid_rels_dict': 3}


def layout(chk, repo):
    """entries have their length, wherever made or taken apart; the dictionaries are only changed within the model package."""
    n = 0
    for fn in repo.all_fns():
        if fn.parent is not None:
            continue
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    b = base(t.value) if isinstance(t, ast.Subscript) else None
                    if b:
                        n += 1
                        chk.check(fn.module.name.startswith('resqpy.model'), f'outside {fn.short} {b}', fn.loc(x),
                                  f'{fn.short} changes the model\'s {b} directly')
                        if isinstance(x.value, ast.Tuple):
                            chk.check(len(x.value.elts) == LENGTH[b], f'layout {fn.short} {b}', fn.loc(x),
                                      f'{fn.short} makes an entry of {b} with {len(x.value.elts)} elements, it has {LENGTH[b]}')
                    if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Subscript) and base(x.value.value):
                        b = base(x.value.value)
                        n += 1
                        chk.check(len(t.elts) == LENGTH[b], f'layout {fn.short} {b}', fn.loc(x),
                                  f'{fn.short} takes apart an entry of {b} into {len(t.elts)} elements, it has {LENGTH[b]}')
            elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.value, ast.Subscript) and base(x.value.value):
                b = base(x.value.value)
                n += 1
                chk.check(-LENGTH[b] <= x.slice.value < LENGTH[b], f'layout {fn.short} {b}', fn.loc(x),
                          f'{fn.short} takes element {x.slice.value} of an entry of {b}, which has {LENGTH[b]}')
    chk.floor('catalogue entries made or taken apart', n, 15)


def base(e):
    return e.attr if isinstance(e, ast.Attribute) and e.attr in LENGTH else None
