"""C03: every reference between stored objects is mirrored by a two-way relationship with the right roles."""

import ast
import json
import os
import re

from sa.persist import summaries
from sa.guardcheck import check_guards
from sa.repo import walk_own
from sa.report import VERIF

SPEC = os.path.join(VERIF, 'spec', 'c03.json')
PAIRS = {('destinationObject', 'sourceObject'), ('sourceObject', 'destinationObject'), ('mlToExternalPartProxy', 'externalPartProxyToMl'),
         ('externalPartProxyToMl', 'mlToExternalPartProxy')}
OWNER = {'destinationObject', 'mlToExternalPartProxy'}     # roles recorded with the referring object
REL_FNS = {'create_reciprocal_relationship', 'create_reciprocal_relationship_uuids', '_create_reciprocal_relationship'}


def short(q):
    return q.rsplit('.', 1)[-1]


def norm(t):
    t = re.sub(r'\.attrib\[\]$', '', t)
    m = re.match(r'xml:ROOT:new (\w+)\.uuid$', t)
    if m:
        return 'new:' + m.group(1)
    m = re.match(r'xml:ROOT:xml\[<root>/(.*)/UUID:text\]$', t)
    if m:
        return 'xml:' + m.group(1)
    m = re.match(r'xml:(.*)/UUID$', t)
    if m:
        return 'xml:' + m.group(1)
    return t


def alt(u):
    """the same object by its uuid, its root node or itself."""
    out = set(u)
    for x in u:
        out.add(re.sub(r'\.(uuid|root|root_node)$', '', x))
        out.add(re.sub(r'_(uuid|root|node|root_node)$', '', x))
    return out


def guards(cs):
    """names of data attributes which conditions depend on."""
    out = set()
    for c in cs:
        out |= set(re.findall(r'\.(\w+)\b(?!\()', c))
    return out


def facts(S):
    out = {}
    for q, s in S.items():
        if not s['parts']:
            continue
        d = {'refs': {}, 'new_roles': {}, 'hdf5': bool(s['h5refs']), 'proxy': False, 'where': s['parts'][0]['where'], 'rels': len(s['rels'])}
        tg = {}
        for r in s['rels']:
            for side, role in ((r['a'], r['ta']), (r['b'], r['tb'])):
                if 'newnode' in side and len(set(side) - {'newnode'}) == 0:
                    for x in role:
                        d['new_roles'].setdefault(x, []).append(r['where'])
            both = {norm(x) for x in r['a'] + r['b']} - {'const:None', 'newnode'}
            for x in alt(both):
                tg.setdefault(x, []).append(r)
            if 'mlToExternalPartProxy' in r['ta'] + r['tb']:
                d['proxy'] = True
        for r in s['refs']:
            u = {norm(x) for x in r['uuid']} - {'const:None'}
            for p in r['paths'] or ['?']:
                f = d['refs'].setdefault(p, {'targets': set(), 'related': False, 'where': r['where'], 'via': r['ctx'][-1] if r['ctx'] else r['fn'],
                                             'extra': None, 'unknown': False})
                f['targets'] |= u
                if not u or u <= {'call', 'mcall', 'extm', '?'}:
                    f['unknown'] = True
                named = {x for x in u if not x.startswith('new:')}
                hits = [l for x in alt(named) for l in tg.get(x, [])]
                if not hits:    # an object the class itself makes: only a relationship which is not with some other, named, object
                    hits = [l for x in u - named for l in tg.get(x, [])
                            if not named or not any(not y.startswith('new:') and y not in named for y in map(norm, l['a'] + l['b'])
                                                    if y not in ('newnode', 'const:None'))]
                if hits:
                    f['related'] = True
                    ex = min((guards(l['ctrl']) - guards(r['ctrl']) for l in hits), key=len)
                    if f['extra'] is None or len(ex) > len(f['extra']):
                        f['extra'] = ex
        for f in d['refs'].values():
            f['targets'] = sorted(f['targets'])
            f['extra'] = sorted(f['extra'] or ())
        out[q] = d
    return out


def const_values(fn, e, depth=0):
    """the constant strings an argument can be, through local assignments; None where it is not constant (e.g. a parameter)."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return {e.value}
    if isinstance(e, ast.IfExp):
        a, b = const_values(fn, e.body, depth), const_values(fn, e.orelse, depth)
        return None if a is None or b is None else a | b
    if isinstance(e, ast.Name) and depth < 4:
        if e.id in fn.params:
            return None
        vals = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        v = const_values(fn, n.value, depth + 1)
                        if v is None:
                            return None
                        vals |= v
                    elif isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == e.id for x in t.elts):
                        if not isinstance(n.value, ast.Tuple) or len(n.value.elts) != len(t.elts):
                            return None
                        i = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Name) and x.id == e.id][0]
                        v = const_values(fn, n.value.elts[i], depth + 1)
                        if v is None:
                            return None
                        vals |= v
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                return None
        return vals or None
    return None


def call_sites(repo):
    for fn in repo.all_fns():
        for n in walk_own(fn.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm in REL_FNS:
                    args = list(n.args)
                    off = 1 if nm.startswith('_') else 0
                    names = ['node_a', 'rel_type_a', 'node_b', 'rel_type_b'] if 'uuids' not in nm else ['uuid_a', 'rel_type_a', 'uuid_b', 'rel_type_b']
                    kw = {k.arg: k.value for k in n.keywords}
                    got = []
                    for i, nn in enumerate(names):
                        got.append(args[i + off] if i + off < len(args) else kw.get(nn))
                    yield fn, n, got


def node_label(fn, e):
    """what the node of a relationship is: only used where the code names it by a parameter or an attribute chain."""
    if isinstance(e, ast.Name) and e.id in fn.params:
        return e.id
    if isinstance(e, ast.Attribute):
        return ast.unparse(e)
    return None


def site_roles(repo):
    """function -> node label -> roles, for relationship calls outside of the class summaries."""
    out = {}
    for fn, n, (na, ra, nb, rb) in call_sites(repo):
        for x, r in ((na, ra), (nb, rb)):
            if x is None or r is None:
                continue
            lab, v = node_label(fn, x), const_values(fn, r)
            if lab and v and len(v) == 1:
                out.setdefault(fn.short, {}).setdefault(lab, {}).setdefault(next(iter(v)), f'{fn.path}:{n.lineno}')
    return out


class Side:
    """which side's arguments (a or b) local values of the relationship primitive derive from."""

    def __init__(self, fn, pa, pb, ra, rb):
        self.fn = fn
        self.dep = {pa: {'a'}, pb: {'b'}, ra: {'Ta'}, rb: {'Tb'}}
        self.run()

    def of(self, e):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                out |= self.dep.get(n.id, set())
        return out

    def run(self):
        for _ in range(8):
            before = {k: set(v) for k, v in self.dep.items()}
            for n in ast.walk(self.fn.node):
                if isinstance(n, ast.Assign):
                    v = self.of(n.value)
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.dep.setdefault(x.id, set()).update(v)
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    v = self.of(n.iter)
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            self.dep.setdefault(x.id, set()).update(v)
            if before == self.dep:
                break


def relationship_nodes(repo, fn, n_args, depth=0):
    """(parent deps, {attribute: deps}, where) of every Relationship element made by the primitive, helpers included.

    n_args maps parameter name -> set of origins ('a','b','Ta','Tb')."""
    out = []
    s = Side.__new__(Side)
    s.fn = fn
    s.dep = {k: set(v) for k, v in n_args.items()}
    s.run()
    for n in walk_own(fn.node):
        if not isinstance(n, ast.Call):
            continue
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        if name == 'SubElement' and len(n.args) >= 2 and 'Relationship' in ast.unparse(n.args[1]):
            var = None
            for m in walk_own(fn.node):
                if isinstance(m, ast.Assign) and m.value is n and isinstance(m.targets[0], ast.Name):
                    var = m.targets[0].id
            attrs = {}
            for m in walk_own(fn.node):
                if (isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == 'set' and isinstance(m.func.value, ast.Name)
                        and m.func.value.id == var and len(m.args) == 2 and isinstance(m.args[0], ast.Constant)):
                    attrs.setdefault(m.args[0].value, set()).update(s.of(m.args[1]))
                elif (isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Subscript) and isinstance(m.targets[0].slice, ast.Constant)
                      and ast.unparse(m.targets[0].value) == f'{var}.attrib'):
                    attrs.setdefault(m.targets[0].slice.value, set()).update(s.of(m.value))
            out.append((s.of(n.args[0]), attrs, f'{fn.path}:{n.lineno}'))
        elif depth < 3:
            ent = repo.resolve_expr(fn, n.func)
            tgt = ent[1] if ent is not None and ent[0] == 'fn' else None
            if tgt is not None and tgt.module is fn.module and tgt is not fn:
                m = dict(s.dep) if tgt.parent is fn else {}
                pars = [p for p in tgt.params]
                for i, a in enumerate(n.args):
                    if i < len(pars):
                        m[pars[i]] = s.of(a)
                for k in n.keywords:
                    if k.arg:
                        m[k.arg] = s.of(k.value)
                out += relationship_nodes(repo, tgt, m, depth + 1)
    return out


def check(chk):
    repo = chk.repo
    chk.rule('R1 (per stored class, abstract interpretation of its xml writer): for every reference node written, a reciprocal '
             'relationship is created whose other side denotes the same object. R1b its guard depends on no further data attribute. '
             'R2 the new node takes the referring role in every relationship. R3 at every call of the relationship functions the pair of '
             'roles is one of the matching pairs. R4 the relationship function writes one element to each side\'s relationship file, naming '
             'the other side, with its own side\'s role. R5 a class with hdf5 references relates its node to the external part proxy.')
    with open(SPEC, encoding='utf-8') as fh:
        spec = json.load(fh)
    F = facts(summaries(repo))
    nref = nrel = 0
    for q, d in sorted(F.items()):
        name = short(q)
        b = spec['classes'].get(q) or {'refs': {}, 'new_roles': {}}
        for p, f in sorted(d['refs'].items()):
            bf = b['refs'].get(p, {})
            if f['targets'] == ['self']:
                continue
            nref += 1
            if not f['related'] and (f['unknown'] or bf.get('skip')):
                chk.count('references not judged')
                continue
            chk.check(f['related'], f'norel {name} {p}', f['where'],
                      f'{name} (via {f["via"]}) writes a reference {p} but makes no relationship with the referenced object',
                      f'{name} {p}')
            if f['related']:
                new = set(f['extra']) - set(bf.get('extra', ())) if bf else set()
                new -= {x for t in f['targets'] for x in re.split(r'\W+', t)}
                chk.check(not new, f'guard {name} {p}', f['where'],
                          f'{name}: the relationship for reference {p} additionally depends on {sorted(new)}, the reference does not')
        for role, where in sorted(d['new_roles'].items()):
            nrel += len(where)
            for w in where:
                chk.check(role in OWNER, f'role {name} {role}', w, f'{name}: the newly created object takes role {role} in a relationship, although '
                          'it is the referring object')
        if d['hdf5']:
            chk.check(d['proxy'], f'proxy {name}', d['where'], f'{name} writes hdf5 references but no relationship with the external part')
    chk.floor('classes with parts', len(F), 30)
    chk.floor('references', nref, 70)
    chk.floor('relationship ends of new objects', nrel, 40)
    ns = 0
    for fn, n, (na, ra, nb, rb) in call_sites(repo):
        w = f'{fn.path}:{n.lineno}'
        if ra is None or rb is None:
            chk.count('relationship calls not judged')
            continue
        va, vb = const_values(fn, ra), const_values(fn, rb)
        if va is None or vb is None:
            chk.count('relationship calls with passed-through roles')
            continue
        ns += 1
        good = all(any((x, y) in PAIRS for y in vb) for x in va) and all(any((x, y) in PAIRS for x in va) for y in vb)
        chk.check(good, f'pair {fn.short} {sorted(va)} {sorted(vb)}', w, f'{fn.short}: relationship roles {sorted(va)} and {sorted(vb)} do not match', w)
    chk.floor('relationship calls', ns, 50)
    for f, labs in site_roles(repo).items():
        for lab, roles in labs.items():
            was = spec['sites'].get(f, {}).get(lab)
            if was:
                for r, w in roles.items():
                    chk.check(r in was, f'orient {f} {lab} {r}', w, f'{f}: {lab} takes role {r} in a relationship; it is the {was} side')
    prim = [f for f in repo.all_fns() if f.name == '_create_reciprocal_relationship']
    for f in prim:
        p = f.params
        if len(p) < 5:
            continue
        ends = relationship_nodes(repo, f, {p[1]: {'a'}, p[2]: {'Ta'}, p[3]: {'b'}, p[4]: {'Tb'}})
        if any({'a', 'b'} <= par for par, attrs, w in ends):
            chk.count('relationship primitive handling both sides in one statement (not judged)')
            continue
        sides = set()
        for par, attrs, w in ends:
            own = par & {'a', 'b'}
            chk.check(len(own) == 1, f'primitive parent {sorted(par)}', w, 'a relationship element is not added to exactly one side\'s file')
            if len(own) != 1:
                continue
            o = next(iter(own))
            sides.add(o)
            other = 'b' if o == 'a' else 'a'
            t = attrs.get('Target', set())
            chk.check(t & {'a', 'b'} == {other}, f'primitive target {o}', w, f'the relationship element of side {o} does not name the other side as its target')
            t = attrs.get('Type', set())
            chk.check(t & {'Ta', 'Tb'} == {'T' + o}, f'primitive type {o}', w, f'the relationship element of side {o} does not carry that side\'s role')
        chk.check(sides == {'a', 'b'}, 'primitive sides', f.path, f'relationship elements are written for sides {sorted(sides)}, not for both')
    chk.floor('relationship primitive', len(prim), 1)
    chk.rule('G: each of the effects on which the property rests happens under the reviewed condition (boolean formulas over normalised tests, compared by truth table).')
    check_guards(chk, 'C03', 90)
