"""C02: every hdf5 array an object's xml refers to is stored under the name referred to, and loaded back into the attribute it came from."""

import ast
import json
import os

from sa.persist import ARROPS, _dtype_name, cond_tokens, _local_defs, expr_ops, summaries
from sa.guardcheck import check_guards
from sa.repo import AnalysisBroken
from sa.report import VERIF

from .c01 import LOSSY, short, wanted, seg_match

SPEC = os.path.join(VERIF, 'spec', 'c02.json')
LSPEC = os.path.join(VERIF, 'spec', 'c02_loads.json')
BITS = {'int8': ('i', 8), 'uint8': ('i', 8), 'int16': ('i', 16), 'uint16': ('i', 16), 'int32': ('i', 32), 'uint32': ('i', 32), 'int64': ('i', 64),
        'uint64': ('i', 64), 'int': ('i', 64), 'float': ('f', 64), 'float64': ('f', 64), 'double': ('f', 64), 'float32': ('f', 32),
        'float16': ('f', 16), 'half': ('f', 16), 'single': ('f', 32), 'bool': ('b', 1), 'bool_': ('b', 1)}


def facts(S):
    out = {}
    for q, s in S.items():
        tails = {}
        for r in s['regs']:
            if r['opaque']:
                continue
            for t in r['tail']:
                d = tails.setdefault(t, {'attrs': set(), 'params': set(), 'uuid': set(), 'dtype': set(), 'where': set(), 'paths': set(), 'ruuid': set(),
                                         'rwhere': set(), 'ops': set(), 'ctok': set(), 'rtok': set()})
                d['attrs'] |= set(r['attrs'])
                d['params'] |= set(r['params'])
                d['uuid'] |= set(r['uuid']) | set(r['uparams'])
                d['dtype'] |= set(r['dtype'])
                d['ops'] |= set(r['ops'])
                d['where'].add(r['where'])
                d['ctok'] |= set(r['cond'][1])
        for r in s['h5refs']:
            if r['opaque']:
                continue
            for t in r['tail']:
                d = tails.setdefault(t, {'attrs': set(), 'params': set(), 'uuid': set(), 'dtype': set(), 'where': set(), 'paths': set(), 'ruuid': set(),
                                         'rwhere': set(), 'ops': set(), 'ctok': set(), 'rtok': set()})
                d['paths'] |= {p for p in r['paths'] if not p.startswith('...') and p}
                d['ruuid'] |= set(r['uuid']) | set(r['uparams'])
                d['rwhere'].add(r['where'])
                d['rtok'] |= set(r['cond'][1])
        loads = {}
        for ld in s['loads']:
            for p in ld['paths']:
                d = loads.setdefault(p, {'attrs': set(), 'dtype': set(), 'where': set()})
                d['attrs'] |= set(ld['attrs'])
                d['dtype'] |= set(ld['dtype'])
                d['where'].add(ld['where'])
        unk = any(r['opaque'] for r in s['regs'])
        runk = any(r['opaque'] for r in s['h5refs'])
        types = {p: set(w['types']) for p, w in s['W'].items()}
        for t, d in tails.items():
            la, ld, lw = set(), set(), set()
            for p in d['paths']:
                for lp, x in loads.items():
                    if lp == p or (p not in loads and ('*' in lp or lp.startswith('.../')) and seg_match(lp, p)):
                        la |= x['attrs']
                        ld |= x['dtype']
                        lw |= x['where']
            d['lattrs'], d['ldtype'], d['lwhere'] = la, ld, lw
            d['types'] = set()
            for p in d['paths']:
                d['types'] |= types.get(p.rsplit('/', 1)[0], set()) & {'DoubleHdf5Array', 'IntegerHdf5Array', 'BooleanHdf5Array', 'Point3dHdf5Array'}
        out[q] = {'tails': {t: {k: sorted(v) for k, v in d.items()} for t, d in tails.items()}, 'unk': unk, 'runk': runk,
                  'lunk': any(not ld['paths'] or '?' in p for ld in s['loads'] for p in (ld['paths'] or ['?']))}
    return out


def dtypes(e, defs, out, lims, seen=()):
    if isinstance(e, ast.IfExp):
        cond_tokens(e.test, True, defs, lims)
        dtypes(e.body, defs, out, lims, seen)
        dtypes(e.orelse, defs, out, lims, seen)
    elif isinstance(e, ast.Name) and e.id in defs and e.id not in seen:
        for d in defs[e.id]:
            dtypes(d, defs, out, lims, seen + (e.id,))
    else:
        out.add(_dtype_name(e))


def load_sites(repo):
    """(class or module, array attribute) -> number types and value changing operations, for every array loaded anywhere in the package."""
    out = {}
    for fn in repo.fns.values():
        names = {}
        defs = _local_defs(fn)
        for n in ast.walk(fn.node):
            if not isinstance(n, ast.Call):
                continue
            f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if f not in ('h5_array_element', 'load_hdf5_array'):
                continue
            a = next((k.value for k in n.keywords if k.arg == 'array_attribute'), None)
            if a is None and f == 'load_hdf5_array' and len(n.args) > 2:
                a = n.args[2]
            if not isinstance(a, ast.Constant) or not isinstance(a.value, str):
                continue
            rec = names.setdefault(a.value, (set(), [], set()))
            for k in n.keywords:
                if k.arg == 'dtype':
                    dtypes(k.value, defs, rec[0], rec[2])
            rec[1].append(n)
        if not names:
            continue
        owner = fn.cls.qual if fn.cls is not None else fn.module.name
        for nm, (ty, nodes, lims) in names.items():
            d = out.setdefault(f'{owner}|{nm}', {'dtype': set(), 'ops': set(), 'lims': set(), 'where': []})
            d['dtype'] |= ty
            d['lims'] |= {x for x in lims if x.startswith('lim ')}
            d['where'] += [fn.loc(x) for x in nodes]
            for st in ast.walk(fn.node):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AugAssign) else []
                if any(isinstance(t, ast.Attribute) and t.attr == nm or isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == nm
                       for t in ts) and not isinstance(st.value, ast.Constant):
                    if isinstance(st, ast.AugAssign):
                        d['ops'].add(type(st.op).__name__)
                    d['ops'] |= expr_ops(fn, st.value, defs)
    return out


def casts(f):
    return {x[5:] for x in f['ops'] if x.startswith('cast:')}


SMALL = {'lim >=0', 'lim >=1', 'lim <=0', 'lim ==0', 'lim !=0', 'lim ==1', 'lim !=1', 'lim >0', 'lim <=-1', 'lim !=-1', 'lim ==-1', 'lim >=2', 'lim <=1', 'lim ==None'}
HARMLESS_TOK = {'by any', 'by all', 'op Sub', 'by set', 'item 0', 'item 1', 'item 2', 'item -1'}


def tightened(b, f, tok):
    """conditions which an event depends on now and did not in the reference."""
    bad = []
    bt, ft = set(b[tok]), set(f[tok])
    for t in sorted(ft - bt):
        if t.startswith('lim '):
            if t not in SMALL or t in ('lim >=2', 'lim <=1') and any(x in ('lim >=1', 'lim !=0', 'lim >0') for x in bt - ft):
                bad.append(t[4:])
        elif t.startswith('item ') or t == 'cut' or t.startswith(('by ', 'op ')):
            if t not in HARMLESS_TOK:
                bad.append(t)
    bs, fs = {t[5:] for t in bt if t.startswith('text ')}, {t[5:] for t in ft if t.startswith('text ')}
    if bs and fs and bs - fs and fs < bs:
        bad += [f'no longer for {x}' for x in sorted(bs - fs)]
    if fs - bs and not bs:
        bad += [f'only for {x}' for x in sorted(fs)]
    bn, fn = {t[4:] for t in bt if t.startswith('not ')}, {t[4:] for t in ft if t.startswith('not ')}
    if fn - bn and fn > bn:
        bad += [f'except for {x}' for x in sorted(fn - bn)]
    return bad


def _first(*ls):
    for x in ls:
        if x:
            return x[0]
    return ''


def check(chk):
    repo = chk.repo
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    for q in spec:
        if q not in repo.classes:
            raise AnalysisBroken(f'class {q} not found')
    chk.rule('R1: every hdf5 array name which create_xml refers to is registered for writing by the same class under the same name, and with the '
             'same owner uuid; every registered array is referred to.')
    chk.rule('R2: the attribute into which the referenced array is loaded is (one of) those its stored values are derived from.')
    chk.rule('R3: an array is not stored or loaded with a narrower number type than the reference, nor one whose kind contradicts the declared xml '
             'array type.')
    chk.rule('R4: no arithmetic, rounding or sign change is applied to an array as it is registered, where the reference had none.')
    chk.rule('R5: none of these is stored, referred to or loaded subject to a condition, limit or cut which the reference did not have.')
    chk.assumptions.append('arrays pass through the package\'s own write_hdf5 register and h5_array_element/load helpers (modelled); names that are '
                           'computed at run time (per patch or per part suffixes) are compared by their constant pieces only.')
    S = summaries(repo, only=wanted(repo))
    F = facts(S)
    n = 0
    for q in sorted(F):
        cn = short(q)
        cur = F[q]
        base = spec.get(q, {'tails': {}})
        for t, b in sorted(base['tails'].items()):
            f = cur['tails'].get(t)
            key = f'{cn} {t}'
            if f is None:
                # the name may have been changed consistently: judged below on the current names alone, via the xml paths
                pc = [t2 for t2, x in cur['tails'].items() if set(x['paths']) & set(b['paths'])]
                if not pc and b['paths'] and not (cur['runk'] and not base.get('runk')):
                    chk.bad(f'noref {key}', '', f'{cn}: no hdf5 array is referred to any more at xml element {"/".join(b["paths"])}')
                continue
            n += 1
            if b['where'] and b['rwhere']:
                if not f['where'] and not (cur['unk'] and not base.get('unk')):
                    chk.bad(f'unstored {key}', _first(f['rwhere']), f'{cn}: xml refers to hdf5 array {t} which is not registered for writing')
                    continue
                if not f['rwhere'] and not (cur['runk'] and not base.get('runk')):
                    chk.bad(f'unreferenced {key}', _first(f['where']), f'{cn}: hdf5 array {t} is stored but xml does not refer to it')
                    continue
                chk.ok({'class': cn, 'array': t, 'element': f['paths'], 'stored_from': f['attrs'], 'loaded_into': f['lattrs']} if n % 6 == 0 else None)
            if b['lattrs'] and f['rwhere']:
                if not f['lattrs'] and not (cur['lunk'] and not base.get('lunk')):
                    chk.bad(f'unloaded {key}', _first(f['rwhere']), f'{cn}: hdf5 array {t} (xml {"/".join(f["paths"])}) is never loaded back')
                    continue
                chk.ok()
            if b['mode'] == 'agree' and f['attrs'] and f['lattrs']:
                chk.check(bool(set(f['attrs']) & set(f['lattrs'])), f'mismatch {key}', _first(f['where'], f['rwhere']),
                          f'{cn}: hdf5 array {t} is stored from {"/".join(f["attrs"])} but loaded into {"/".join(f["lattrs"])}')
            new = (set(f['ops']) - set(b['ops'])) & (LOSSY | ARROPS)
            chk.check(not new, f'altered {key} {",".join(sorted(new))}', _first(f['where']),
                      f'{cn}: hdf5 array {t} is altered ({", ".join(sorted(new))}) as it is stored')
            for tok, whr, word in (('ctok', 'where', 'stored'), ('rtok', 'rwhere', 'referred to')):
                if b[whr] and f[whr]:
                    bad = tightened(b, f, tok)
                    chk.check(not bad, f'conditional {key} {word} {",".join(bad)[:80]}', _first(f[whr]),
                              f'{cn}: hdf5 array {t} is now {word} subject to a further condition ({", ".join(bad)})')
            for side, word in (('dtype', 'stored'), ('ldtype', 'loaded')):
                had = set(b[side]) | (casts(b) if side == 'dtype' else set())
                now = set(f[side]) | (casts(f) if side == 'dtype' else set())
                ref = set(had)
                if side == 'dtype':
                    # what the array is stored as must also hold what it is loaded as (at least a 32 bit integer)
                    ref |= set(b['ldtype']) or {'float64'}
                    ref |= {'int32'} if not any(BITS.get(x, ('', 0))[0] in 'ib' for x in ref) else set()
                bb = {BITS[x] for x in ref if x in BITS}
                for x in sorted(now - had):
                    if x not in BITS or not ref:
                        continue
                    k, w = BITS[x]
                    if side == 'dtype' and k == 'i' and w >= 32 and not b[side] and not casts(b):
                        continue   # a count or index: type left to the array in the reference
                    same = [bw for bk, bw in bb if bk == k]
                    chk.check(not (same and w < min(same)) and not (not same and k in 'ib' and any(bk == 'f' for bk, _ in bb)),
                              f'narrow {key} {word} {x}', _first(f['where'] if side == 'dtype' else f['lwhere']),
                              f'{cn}: hdf5 array {t} is {word} as {x}, narrower than {"/".join(sorted(ref))}')
        for t, f in sorted(cur['tails'].items()):
            if t in base['tails']:
                continue
            n += 1
            key = f'{cn} {t}'
            if f['rwhere'] and not f['where'] and not (cur['unk'] and not base.get('unk')):
                chk.bad(f'unstored {key}', _first(f['rwhere']), f'{cn}: xml refers to hdf5 array {t} which is not registered for writing')
            elif f['where'] and not f['rwhere'] and not (cur['runk'] and not base.get('runk')):
                chk.bad(f'unreferenced {key}', _first(f['where']), f'{cn}: hdf5 array {t} is stored but xml does not refer to it')
            elif f['attrs'] and f['lattrs'] and not set(f['attrs']) & set(f['lattrs']):
                chk.bad(f'mismatch {key}', _first(f['where'], f['rwhere']),
                        f'{cn}: hdf5 array {t} is stored from {"/".join(f["attrs"])} but loaded into {"/".join(f["lattrs"])}')
            else:
                chk.ok()
        for t, f in sorted(cur['tails'].items()):
            if f['uuid'] and f['ruuid']:
                chk.check(bool(set(f['uuid']) & set(f['ruuid'])), f'owner {cn} {t}', _first(f['where']),
                          f'{cn}: hdf5 array {t} is stored under {"/".join(f["uuid"])} but referred to under {"/".join(f["ruuid"])}')
            if 'DoubleHdf5Array' in f['types'] and len(f['types']) == 1:
                ki = {x for x in f['ldtype'] if BITS.get(x, ('f', 0))[0] != 'f'}
                chk.check(not ki or set(f['ldtype']) - ki, f'kind {cn} {t}', _first(f['lwhere']),
                          f'{cn}: hdf5 array {t} is declared as floating point in the xml but loaded as {"/".join(sorted(ki))}')
    chk.floor('array_names', n, 60)
    chk.floor('classes', len([q for q in F if F[q]['tails']]), 17)
    with open(LSPEC, encoding='utf-8') as fh:
        lspec = json.load(fh)
    L = load_sites(repo)
    m = 0
    for k, b in sorted(lspec.items()):
        f = L.get(k)
        if f is None:
            continue
        m += 1
        new = (f['ops'] - set(b['ops'])) & (LOSSY | ARROPS)
        nm = k.rsplit('.', 1)[-1].replace('|', '.')
        chk.check(not new, f'changed {nm} {",".join(sorted(new))}', _first(f['where']), f'{nm}: hdf5 array is altered ({", ".join(sorted(new))}) where it is loaded')
        new = sorted(x[4:] for x in f['lims'] - set(b['lims'])) if b['lims'] else []
        chk.check(not new, f'limit {nm} {",".join(new)}', _first(f['where']), f'{nm}: hdf5 array is loaded as a wider or narrower type by another limit ({", ".join(new)})')
        had = {BITS[x] for x in b['dtype'] if x in BITS} or {('f', 64)}
        for x in sorted(f['dtype'] - set(b['dtype'])):
            if x in BITS:
                kk, w = BITS[x]
                same = [bw for bk, bw in had if bk == kk]
                chk.check(not (same and w < min(same)) and not (not same and kk in 'ib' and any(bk == 'f' for bk, _ in had)), f'loadtype {nm} {x}', _first(f['where']),
                          f'{nm}: hdf5 array is loaded as {x}, narrower than {"/".join(sorted(b["dtype"])) or "float64"}')
    chk.floor('load_sites', m, 20)
    chk.rule('G: each of the effects on which the property rests happens under the reviewed condition (boolean formulas over normalised tests, compared by truth table).')
    check_guards(chk, 'C02', 60)
