"""C04: object types are named consistently: part entry, xml node, references, look-ups and comparisons."""

import ast
import json
import os

from sa.persist import summaries
from sa.repo import walk_own
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c04.json')
TYPE_PARAMS = {'obj_type', 'type_of_interest', 'content_type', 'resqml_type', 'type_of_part'}
TYPE_FNS = {'type_of_part', 'type_of_uuid', '_type_of_part', '_type_of_uuid'}
# RESQML 2.0.1 top level object classes (standard vocabulary)
RESQML = set('''Activity ActivityTemplate BlockedWellboreRepresentation BoundaryFeature BoundaryFeatureInterpretation CategoricalProperty
CategoricalPropertySeries CommentProperty CommentPropertySeries ContinuousProperty ContinuousPropertySeries DeviationSurveyRepresentation
DiscreteProperty DiscretePropertySeries DoubleTableLookup EarthModelInterpretation EpcExternalPartReference FaultInterpretation
FluidBoundaryFeature FrontierFeature GenericFeatureInterpretation GeneticBoundaryFeature GeobodyBoundaryInterpretation GeobodyFeature
GeobodyInterpretation GeologicUnitFeature GeologicUnitInterpretation GlobalChronostratigraphicColumn GpGridRepresentation
Grid2dRepresentation Grid2dSetRepresentation GridConnectionSetRepresentation HorizonInterpretation IjkGridRepresentation LocalDepth3dCrs
LocalGridSet LocalTime3dCrs MdDatum NonSealedSurfaceFrameworkRepresentation OrganizationFeature PlaneSetRepresentation
PointSetRepresentation PointsProperty PolylineRepresentation PolylineSetRepresentation PropertyKind PropertySet
RedefinedGeometryRepresentation RepresentationIdentitySet RepresentationSetRepresentation RockFluidOrganizationInterpretation
RockFluidUnitFeature RockFluidUnitInterpretation SealedSurfaceFrameworkRepresentation SealedVolumeFrameworkRepresentation
SeismicLatticeFeature SeismicLineFeature SeismicLineSetFeature StratigraphicColumn StratigraphicColumnRankInterpretation
StratigraphicOccurrenceInterpretation StratigraphicUnitFeature StratigraphicUnitInterpretation StreamlinesFeature
StreamlinesRepresentation StringTableLookup StructuralOrganizationInterpretation SubRepresentation TectonicBoundaryFeature TimeSeries
TriangulatedSetRepresentation TruncatedIjkGridRepresentation TruncatedUnstructuredColumnLayerGridRepresentation
UnstructuredColumnLayerGridRepresentation UnstructuredGridRepresentation WellboreFeature WellboreFrameRepresentation
WellboreInterpretation WellboreMarkerFrameRepresentation WellboreTrajectoryRepresentation TimeSeriesCollection'''.split())
PARTIAL = {'Discrete', 'Continuous', 'Categorical', 'Points'}   # property_part() and friends append 'Property'
NOT_TYPES = {'Epc'}


def bare(t):
    return t[4:] if t.startswith('obj_') else t


def short(q):
    return q.rsplit('.', 1)[-1]


def class_types(repo):
    """class -> constant resqml_type (own or inherited)."""
    out = {}
    for c in repo.classes.values():
        for b in repo.mro(c):
            v = None
            for st in b.node.body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'resqml_type' for t in st.targets):
                    v = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == 'resqml_type':
                    v = st.value
            if v is not None:
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    out[c.qual] = (v.value, f'{b.module.path}:{v.lineno}')
                break
    return out


def ref_types(S):
    out = {}
    for q, s in S.items():
        for r in s['refs']:
            ct = {bare(t) for t in r['ctype']}
            for p in r['paths'] or ['?']:
                d = out.setdefault((q, p), [set(), r['where'], set(r['flavour'])])
                d[0] |= ct
    return out


def str_consts(e):
    """constant string(s) an expression is: itself or the members of a literal container; None when it is neither."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return [e.value]
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = []
        for x in e.elts:
            if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
                return None
            out.append(x.value)
        return out
    if isinstance(e, ast.IfExp):
        a, b = str_consts(e.body), str_consts(e.orelse)
        return (a or []) + (b or []) or None
    return None


def type_args(repo):
    """(function, call, parameter, constant) of every constant object type handed to a package function."""
    by_name = {}
    for f in repo.all_fns():
        by_name.setdefault(f.name, []).append(f)
    for fn in repo.all_fns():
        for n in walk_own(fn.node):
            if not isinstance(n, ast.Call):
                continue
            for k in n.keywords:
                if k.arg in TYPE_PARAMS:
                    for v in str_consts(k.value) or ():
                        yield fn, n, k.arg, v
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            cands = by_name.get(nm, [])
            for i, a in enumerate(n.args):
                vs = str_consts(a)
                if not vs or not cands:
                    continue
                ps = set()
                for f in cands:
                    pp = f.params
                    if f.kind in ('method', 'class') and isinstance(n.func, ast.Attribute):
                        pp = pp[1:]
                    ps.add(pp[i] if i < len(pp) else None)
                if len(ps) == 1 and next(iter(ps)) in TYPE_PARAMS:
                    for v in vs:
                        yield fn, n, next(iter(ps)), v


def stripped(call):
    """does a type_of_... call strip the obj_ prefix?  None if not constant."""
    nm = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else None
    if nm not in TYPE_FNS:
        return None
    for k in call.keywords:
        if k.arg == 'strip_obj':
            return bool(k.value.value) if isinstance(k.value, ast.Constant) else None
    pos = 2 if nm.startswith('_') else 1
    if len(call.args) > pos:
        a = call.args[pos]
        return bool(a.value) if isinstance(a, ast.Constant) else None
    return False


def comparisons(repo):
    """comparisons of a part's type (as returned by type_of_part, type_of_uuid) with constants: (fn, node, stripped, constants)."""
    for fn in repo.all_fns():
        var = {}
        other = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, ast.Call) and stripped(n.value) is not None:
                            var.setdefault(t.id, set()).add(stripped(n.value))
                        else:
                            other.add(t.id)
                    else:
                        other |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            elif isinstance(n, (ast.For, ast.comprehension, ast.NamedExpr, ast.AugAssign)):
                other |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        other |= set(fn.params)

        def strip_of(e):
            if isinstance(e, ast.Call):
                return stripped(e)
            if isinstance(e, ast.Name) and e.id in var and e.id not in other and len(var[e.id]) == 1:
                return next(iter(var[e.id]))
            return None

        for n in walk_own(fn.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                sides = [(n.left, n.comparators[0])]
                if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                    sides.append((n.comparators[0], n.left))
                for a, b in sides:
                    st = strip_of(a)
                    vs = str_consts(b)
                    if st is not None and vs:
                        if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(b, ast.Constant):
                            continue
                        yield fn, n, st, vs


def check(chk):
    repo = chk.repo
    chk.rule('R1 each stored class declares the object type it had in the reviewed table. R2 the type its part is catalogued under is the type '
             'its xml node is made with, the uuid it is catalogued under is its own and the tree is the node just made. R3 the content type '
             'written in each reference is one the reviewed table allows for that reference. R4 every constant object type given to a '
             'catalogue function, and every obj_ constant, is a RESQML class name. R5 a comparison of a part\'s type with a constant uses '
             'the same (stripped or unstripped) form.')
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    S = summaries(repo)
    ct = class_types(repo)
    n1 = 0
    for q, t in sorted(spec['types'].items()):
        if q not in repo.classes:
            chk.count('classes of the table no longer present')
            continue
        n1 += 1
        got = ct.get(q, ('undeclared', repo.classes[q].module.path))
        if got[0] == 'undeclared':
            chk.count('class types not constant')
            continue
        chk.check(got[0] == t, f'type {short(q)}', got[1], f'{short(q)} is stored as a {got[0]}, it is a {t}')
    for q, (t, w) in sorted(ct.items()):
        if q not in spec['types'] and q in S and S[q]['parts']:
            chk.check(t in RESQML, f'type {short(q)}', w, f'{short(q)} is stored as a {t}, which is not a RESQML object class')
    chk.floor('classes with an object type', n1, 30)
    n2 = 0
    for q, s in sorted(S.items()):
        own = ct.get(q, (None, ''))[0]
        root_types = {bare(str(t)) for t in s['W'].get('', {}).get('types', ())}
        for p in s['parts']:
            n2 += 1
            types = {bare(t) for t in p['type']}
            if types and '{}' not in types:
                want = {own} if own and own in spec['types'].values() and q not in spec['multi'] else set(spec['multi'].get(q, ())) | set(spec['extra'])
                if want:
                    chk.check(types <= want, f'part {short(q)} {sorted(types)}', p['where'],
                              f'{short(q)}: the part is catalogued as {sorted(types)}, the object is a {sorted(want)}', f'{short(q)} {sorted(types)}')
                elif root_types:
                    chk.check(types <= root_types, f'part {short(q)} {sorted(types)}', p['where'],
                              f'{short(q)}: the part is catalogued as {sorted(types)}, the node is {sorted(root_types)}')
            if 'self' in s.get('ptags', ()) or q not in spec['multi']:
                chk.check('self' in p['uuid'] or not p['uuid'] or any(u.startswith(('xml:', 'call', 'mcall')) for u in p['uuid']),
                          f'uuid {short(q)}', p['where'], f'{short(q)}: the part is catalogued under a uuid that is not its own: {p["uuid"]}')
            chk.check(bool({'newnode', 'self', '?'} & set(p['root'])) or not p['root'] or all(x.startswith('arg:') for x in p['root']), f'root {short(q)}', p['where'],
                      f'{short(q)}: the part is catalogued with a tree that is not its own: {p["root"]}')
    chk.floor('parts catalogued', n2, 40)
    n3 = 0
    flav = spec['flavours']
    for (q, p), (cts, w, fl) in sorted(ref_types(S).items()):
        cts = {c for c in cts if '{' not in c}
        if not cts:
            continue
        n3 += 1
        base = spec['refs'].get(f'{q} {p}')
        allowed = set(base) if base else set()
        if not base:
            for f in fl:
                allowed |= set(flav.get(f, ()))
        if not allowed:
            chk.check(cts <= RESQML, f'ref {short(q)} {p}', w, f'{short(q)}: reference {p} written with unknown content type {sorted(cts)}')
        else:
            chk.check(cts <= allowed, f'ref {short(q)} {p} {sorted(cts - allowed)}', w,
                      f'{short(q)}: reference {p} is written with content type {sorted(cts - allowed)}, it refers to {sorted(allowed)}')
    chk.floor('references with a content type', n3, 25)
    n4 = 0
    for fn, n, par, v in type_args(repo):
        if not v or v == 'obj_':
            continue
        if par == 'content_type' and not (v.startswith('obj_') or v in RESQML or v[:1].isupper()):
            continue
        n4 += 1
        ok = bare(v) in RESQML or (par == 'obj_type' and v in PARTIAL and 'property' in ast.unparse(n.func))
        chk.check(ok, f'vocab {fn.short} {v}', f'{fn.path}:{n.lineno}', f'{fn.short}: {par} = {v!r} is not a RESQML object class')
    for m in repo.mods.values():
        docs = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and n.value.startswith('obj_') and n.value[4:].isalnum():
                n4 += 1
                chk.check(bare(n.value) in RESQML | NOT_TYPES, f'vocab {m.name} {n.value}', f'{m.path}:{n.lineno}',
                          f'{n.value!r} is not a RESQML object class')
    chk.floor('constant object types', n4, 100)
    n5 = 0
    for fn, n, st, vs in comparisons(repo):
        for v in vs:
            if bare(v) not in RESQML:
                continue
            n5 += 1
            chk.check(v.startswith('obj_') != st, f'form {fn.short} {v}', f'{fn.path}:{n.lineno}',
                      f'{fn.short}: a part type {"without" if st else "with"} obj_ prefix is compared with {v!r}, which never matches')
    chk.floor('type comparisons', n5, 5)
