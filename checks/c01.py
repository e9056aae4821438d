"""C01: what an object's xml holds is written from, and restored to, the same attribute, unaltered."""

import ast
import json
import os

from sa.persist import summaries, TEXTOPS
from sa.repo import AnalysisBroken
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c01.json')
LOSSY = {'format', 'round', 'rint', 'floor', 'ceil', 'trunc', 'abs', 'int', 'USub', 'Not', 'Mult', 'Div', 'FloorDiv', 'Mod', 'Sub', 'Add', 'or',
         'Invert', 'Pow'} | TEXTOPS
ROUNDING = {'format', 'round', 'rint', 'floor', 'ceil', 'trunc'}   # never harmless, whatever the reference says
SKIP_BASES = {'PropertyCollection'}     # their per part layout is decided by the property collection check


def short(q):
    return q.rsplit('.', 1)[-1]


def seg_match(rp, wp):
    """does a read path (possibly with wildcards, or relative to a node of unknown position) denote a written path?"""
    rs, ws = rp.split('/'), wp.split('/')
    if rs and rs[0] == '...':
        rs = rs[1:]
        if not rs or len(ws) < len(rs):
            return False
        ws = ws[-len(rs):]
    elif rs and rs[0].startswith('ROOT:'):
        return False
    if len(rs) != len(ws):
        return False
    return all(a == b or a == '*' for a, b in zip(rs, ws))


def readers(R, wp):
    out = []
    if wp in R:
        out.append(R[wp])
    for rp, r in R.items():
        if rp != wp and ('*' in rp or rp.startswith('...')) and seg_match(rp, wp):
            out.append(r)
    return out


def merged(R, wp):
    m = {'attrs': set(), 'kinds': set(), 'ops': set(), 'items': set(), 'where': set(), 'ctrl': set()}
    for r in readers(R, wp):
        for k in m:
            m[k] |= set(r[k])
    return m


def facts(S):
    """class -> path -> facts of both directions (plain data)."""
    out = {}
    for q, s in S.items():
        d = {}
        for wp, w in s['W'].items():
            if not wp or wp.startswith(('...', 'ROOT:')):
                continue
            m = merged(s['R'], wp)
            wa = set(w['attrs'])
            d[wp] = {'w': sorted(wa), 'r': sorted(m['attrs']), 'ops': sorted((w['ops'] | m['ops']) & LOSSY), 'kinds': sorted(m['kinds']),
                     'params': sorted(w['iparams']), 'ctrl': sorted(w['ctrl']), 'truthy': sorted(set(w['truthy']) & wa),
                     'cpol': sorted(map(list, w['cpol'])) if len(w['cpol']) < 9 else [],
                     'items': sorted(w['items']), 'ritems': sorted(m['items']), 'types': sorted(w['types']),
                     'rctrl': sorted(m['ctrl']), 'where': sorted(w['where'] | w['node_where'])[:2], 'rwhere': sorted(m['where'])[:2]}
        out[q] = d
    return out


def read_only(S):
    """class -> path -> attributes restored from elements which are not written under a fixed name."""
    out = {}
    for q, s in S.items():
        d = {p: sorted(r['attrs']) for p, r in s['R'].items() if p not in s['W'] and r['attrs'] and not p.endswith('?') and '*' not in p and not p.startswith('ROOT:') and p not in ('', '...')}
        if d:
            out[q] = d
    return out


def extra_items(repo):
    """(function, node, key, 'w' or 'r', operations) of items of extra metadata by which classes keep data of their own."""
    from sa.persist import _local_defs, _Parents, _read_ops, expr_ops
    from sa.repo import walk_own
    out = []
    pars = _Parents()

    def meta(e):
        return isinstance(e, ast.Attribute) and e.attr == 'extra_metadata' or isinstance(e, ast.Name) and e.id == 'extra_metadata'
    for f in repo.all_fns():
        if f.cls is None:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and meta(t.value) and isinstance(t.slice, ast.Constant):
                        out.append((f, n, str(t.slice.value), 'w', expr_ops(f, n.value, _local_defs(f))))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and meta(n.value) and isinstance(n.slice, ast.Constant):
                out.append((f, n, str(n.slice.value), 'r', _read_ops(f, n, pars)))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and meta(n.func.value) and n.args and isinstance(n.args[0], ast.Constant):
                out.append((f, n, str(n.args[0].value), 'r', _read_ops(f, n, pars)))
    return out


def check_extra(chk, repo, ref):
    items = extra_items(repo)
    written = {k for _, _, k, d, _ in items if d == 'w'}
    for f, n, k, d, ops in items:
        bad = sorted(ops & (ROUNDING | TEXTOPS | {'abs', 'USub'}) - {'lower', 'upper', 'casefold'})
        chk.check(not bad, f'extra {f.cls.name} {k} {d} {",".join(bad)}', f'{f.path}:{n.lineno}', f'{f.short}: the item {k!r} of extra metadata passes through {", ".join(bad)} on being '
                  f'{"written" if d == "w" else "read back"}')
    for c, k in ref:
        chk.check(k in written, f'extra {c} {k} unwritten', c, f'{c} reads back an item {k!r} of extra metadata, which is no longer written under that name')
        chk.check(any(x == k and d == 'r' for _, _, x, d, _ in items), f'extra {c} {k} unread', c, f'the item {k!r} of extra metadata, written by {c}, is no longer read back under that name')


def wanted(repo):
    def f(q):
        c = repo.classes[q]
        return not any(b.name in SKIP_BASES for b in repo.mro(c))
    return f


def late_resets(repo, cls, attrs):
    """attributes restored by loading which the constructor then overwrites unconditionally."""
    out = []
    init = repo.find_method(cls, '__init__')
    if init is None:
        return out

    def is_load(st):
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                f = n.func
                if f.attr == '__init__' and isinstance(f.value, ast.Call) and ast.unparse(f.value.func) == 'super':
                    return True
                if f.attr.startswith('_load_from_xml'):
                    return True
        return False

    def assigned(st):
        if isinstance(st, ast.Assign):
            targets, val = st.targets, st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            targets, val = [st.target], st.value
        else:
            return
        for t in targets:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    yield x.attr, val, st

    # the stamp: only for constructors which load (uuid or root given) in an unconditional statement
    k = next((i for i, st in enumerate(init.node.body) if isinstance(st, ast.Expr) and is_load(st)), None)
    if k is None:
        return out
    pars = {a.arg for a in init.node.args.args + init.node.args.kwonlyargs} - {'self'}
    for st in init.node.body[k + 1:]:
        if any(isinstance(n, ast.Return) for n in ast.walk(st)):
            break
        cand = list(assigned(st))
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and \
                isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == 'self':
            m = repo.find_method(cls, st.value.func.attr)
            if m is not None:
                for s2 in m.node.body:
                    if any(isinstance(n, ast.Return) for n in ast.walk(s2)):
                        break
                    cand += list(assigned(s2))
        for at, val, where in cand:
            if at not in attrs:
                continue
            names = {n.id for n in ast.walk(val) if isinstance(n, ast.Name)}
            selfy = {n.attr for n in ast.walk(val) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'}
            if isinstance(val, ast.Constant) or (names & pars and not selfy and not any(isinstance(n, ast.Call) for n in ast.walk(val))):
                out.append((at, init, where))
    return out


def check(chk):
    repo = chk.repo
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    meta = spec.pop('#', {})
    for q in spec:
        if q not in repo.classes:
            raise AnalysisBroken(f'class {q} not found')
    chk.rule('R1: every xml element from which loading restores an attribute is still both written by create_xml and read on loading, into an '
             'attribute that the written value is derived from.')
    chk.rule('R2: neither direction applies rounding, truncation, precision limited formatting, sign change, negation, arithmetic or an '
             'or-default to a value on its way, where the reference did not.')
    chk.rule('R3: a numeric value is not made conditional on its own truthiness, nor its own presence test replaced by that of another attribute.')
    chk.rule('R4: coordinate components and other constant positions keep their element; constants chosen by a flag keep their polarity.')
    chk.rule('R5: a constructor does not overwrite, after loading, an attribute that loading restores.')
    chk.rule('R6: an element which is restored whenever it is present is not made to depend on other attributes, when writing or when loading; an item of extra metadata which is '
             'read back is written under that name, and not rounded or cut.')
    chk.assumptions.append('xml access goes through the package\'s own helper functions (modelled), the tree is flow-insensitively '
                           'abstracted per object; values inside hdf5 arrays are out of scope here.')
    check_extra(chk, repo, meta.get('extra', []))
    S = summaries(repo, only=wanted(repo))
    F = facts(S)
    pairs = 0
    for q in sorted(F):
        if q not in spec:
            chk.count('classes_without_reference')
        base = spec.get(q, {})
        cur = F[q]
        R = S[q]['R']
        cn = short(q)
        unknown = {p.rsplit('/', 1)[0] if '/' in p else '' for p in list(cur) + list(R) if p.endswith('?')}
        bunk = set(meta.get('unknown', {}).get(q, []))
        for p, b in sorted(base.items()):
            par = p.rsplit('/', 1)[0] if '/' in p else ''
            f = cur.get(p)
            key = f'{cn} {p}'
            lenient = par in unknown and par not in bunk
            if b['mode'] == 'agree':
                pairs += 1
                if f is None or (not f['w'] and not f['params']):
                    if lenient:
                        chk.count('undecided_computed_tag')
                        continue
                    chk.bad(f'unwritten {key}', (b['where'] + [''])[0],
                            f'{cn}: xml element {p} is restored into {"/".join(b["r"])} on loading but create_xml does not write it from the object')
                    continue
                if not f['r']:
                    if lenient:
                        chk.count('undecided_computed_tag')
                        continue
                    chk.bad(f'unread {key}', (f['where'] + [''])[0],
                            f'{cn}: xml element {p} is written from attribute {"/".join(f["w"])} but loading does not restore it')
                    continue
                if f['w'] and not set(f['w']) & set(f['r']):
                    chk.bad(f'mismatch {key}', (f['where'] + [''])[0],
                            f'{cn}: xml element {p} is written from {"/".join(f["w"])} but restored into {"/".join(f["r"])}')
                    continue
                chk.ok({'class': cn, 'element': p, 'written_from': f['w'], 'restored_to': f['r']} if pairs % 40 == 1 else None)
            elif f is not None and b['mode'] == 'alias':
                pairs += 1
                if b['r'] and not f['r'] and not lenient:
                    chk.bad(f'unread {key}', (f['where'] + [''])[0],
                            f'{cn}: xml element {p} is written from {"/".join(f["w"])} but loading does not restore it')
                    continue
                chk.ok()
            if f is None:
                continue
            new = set(f['ops']) - (set(b['ops']) - ROUNDING)
            if new:
                chk.bad(f'lossy {key} {",".join(sorted(new))}', (f['where'] + [''])[0],
                        f'{cn}: value of xml element {p} passes through {", ".join(sorted(new))} between the attribute and the stored text')
            else:
                chk.ok()
            if set(f['truthy']) - set(b['truthy']) and set(f['kinds']) & {'int', 'float', 'bool'}:
                chk.bad(f'truthiness {key}', (f['where'] + [''])[0],
                        f'{cn}: numeric xml element {p} is only written when {"/".join(f["truthy"])} is non-zero')
            own = set(f['w']) & set(b['w'])
            if own & set(b['ctrl']) and not set(f['w']) & set(f['ctrl']) and set(f['ctrl']) - set(b['ctrl']):
                chk.bad(f'guard {key}', (f['where'] + [''])[0],
                        f'{cn}: xml element {p} (from {"/".join(f["w"])}) is now conditional on {"/".join(sorted(set(f["ctrl"]) - set(b["ctrl"])))} '
                        f'instead of on its own presence')
            NEUTRAL = {'root', 'model', 'root_node', 'uuid'}
            if b['mode'] == 'agree':
                new = set(f['ctrl']) - set(b['ctrl']) - set(f['w']) - NEUTRAL
                chk.check(not new, f'dropped {key}', (f['where'] + [''])[0], f'{cn}: xml element {p} (from {"/".join(f["w"])}) is only written subject to {"/".join(sorted(new))}')
                new = set(f['rctrl']) - set(b['rctrl']) - set(f['r']) - NEUTRAL
                chk.check(not new, f'unrestored {key}', (f['rwhere'] + f['where'] + [''])[0], f'{cn}: xml element {p} is only restored into {"/".join(f["r"])} subject to {"/".join(sorted(new))}')
            bp = {(c, a): pol for c, a, pol in b['cpol']}
            for c, a, pol in f['cpol']:
                if c.strip() and (c, a) in bp and bp[(c, a)] != pol and [c, a, bp[(c, a)]] not in f['cpol']:
                    chk.bad(f'polarity {key}', (f['where'] + [''])[0], f'{cn}: xml element {p} holds {c!r} under the opposite state of {a}')
            for side in ('items', 'ritems'):
                bi, fi = set(b[side]), set(f[side])
                if bi and fi and not bi & fi and {x.split('[')[0] for x in bi} & {x.split('[')[0] for x in fi}:
                    chk.bad(f'component {side} {key}', (f['where'] + [''])[0],
                            f'{cn}: xml element {p} now holds {"/".join(sorted(fi))} instead of {"/".join(sorted(bi))}')
        for p, attrs in sorted(meta.get('read only', {}).get(q, {}).items()):
            par = p.rsplit('/', 1)[0] if '/' in p else ''
            if par in unknown and par not in bunk:
                continue
            tail = p[4:] if p.startswith('.../') else p
            now = {a for rp, r in R.items() if rp == p or rp.endswith('/' + tail) or tail.endswith(rp[3:] if rp.startswith('.../') else '/' + rp) for a in r['attrs']}
            chk.check(bool(now & set(attrs)), f'ignored {cn} {p}', repo.classes[q].module.path, f'{cn}: xml element {p} is no longer restored into {"/".join(attrs)}')
        # elements which the reference does not know
        for p, f in sorted(cur.items()):
            if p in base or not f['w'] or not f['r']:
                continue
            chk.check(bool(set(f['w']) & set(f['r'])), f'mismatch {cn} {p}', (f['where'] + [''])[0],
                      f'{cn}: xml element {p} is written from {"/".join(f["w"])} but restored into {"/".join(f["r"])}')
        restored = set()
        for p, f in cur.items():
            if f['w']:
                restored |= set(f['r']) & set(f['w'])
        c = repo.classes[q]
        for at, fn, st in late_resets(repo, c, restored):
            chk.bad(f'reset {cn} {at}', f'{fn.path}:{st.lineno}',
                      f'{cn}: attribute {at}, restored by loading, is overwritten unconditionally later in the constructor')
        chk.count('constructors_scanned')
    chk.floor('written_and_restored_elements', pairs, 300)
    chk.floor('classes', len(F), 50)
