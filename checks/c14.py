"""C14: properties report what is recorded of them; selection yields exactly what meets the criteria."""

import json
import os

from sa.records import Records
from sa.report import VERIF
from sa.select import Select, NONE

SPEC = os.path.join(VERIF, 'spec', 'c14.json')

# criterion of a selection of properties: heading of the record
CRITERIA = {'realization': 'realization', 'support_uuid': 'support_uuid', 'uuid': 'uuid', 'continuous': 'continuous', 'count': 'count', 'points': 'points', 'indexable': 'indexable',
            'property_kind': 'property_kind', 'facet_type': 'facet_type', 'facet': 'facet', 'time_series_uuid': 'time_series_uuid', 'time_index': 'time_index', 'uom': 'uom',
            'string_lookup_uuid': 'string_lookup_uuid', 'const_value': 'const_value'}
MODES = {None: {'same'}, 'is': {'same'}, False: {'same'}, True: {'same', 'starts'}, 'starts': {'same', 'starts'}, 'ends': {'same', 'ends'}, 'contains': {'same', 'starts', 'ends', 'contains'}}
RELATIONS = ('same', 'starts', 'ends', 'contains', 'differ')
NEGATED = {'is not': 'is', 'does not start': 'starts', 'does not end': 'ends', 'does not contain': 'contains'}


def modes():
    """(mode, relation, selected)"""
    for m, ok in MODES.items():
        for r in RELATIONS:
            yield m, r, r in ok
    for m, p in NEGATED.items():
        for r in RELATIONS:
            yield m, r, r not in MODES[p]


def property_scenarios():
    """(text, scen, consts, stored, related, expected)"""
    yield 'no criteria', {}, {}, {}, None, 'in'
    for c, h in CRITERIA.items():
        yield f'{c} the same', {c: (h, 'same')}, {}, {}, None, 'in'
        yield f'{c} different', {c: (h, 'differ')}, {}, {}, None, 'out'
        yield f'{c} not recorded', {c: (h, 'absent')}, {}, {h: NONE}, None, 'out'
        if c not in ('property_kind',):
            yield f'{c} any, recorded', {c: (h, 'differ')}, {c: '*'}, {h: ('c', 'recorded')}, None, 'in'
            yield f'{c} any, not recorded', {c: (h, 'absent')}, {c: '*'}, {h: NONE}, None, 'out'
            yield f'{c} none, recorded', {c: (h, 'differ')}, {c: 'none'}, {h: ('c', 'recorded')}, None, 'out'
            yield f'{c} none, not recorded', {c: (h, 'absent')}, {c: 'none'}, {h: NONE}, None, 'in'
    for v in (False, 0):
        for c in ('continuous', 'points', 'realization', 'time_index', 'const_value', 'count'):
            yield f'{c} {v}, recorded otherwise', {c: (CRITERIA[c], 'differ')}, {c: v}, {CRITERIA[c]: ('c', 7)}, None, 'out'
            yield f'{c} {v}, recorded so', {c: (CRITERIA[c], 'same')}, {c: v}, {CRITERIA[c]: ('c', v)}, None, 'in'
    for m, r, ok in modes():
        yield f'title mode {m}: {r}', {'citation_title': ('citation_title', r)}, {'citation_title_match_mode': m}, {}, None, 'in' if ok else 'out'
    for cat in (True, False):
        for cont in (True, False):
            for lk in (True, False):
                is_cat = not cont and lk
                yield (f'categorical {cat}: continuous {cont}, lookup {lk}', {}, {'categorical': cat},
                       {'continuous': ('c', cont), 'string_lookup_uuid': ('c', 'lookup') if lk else NONE}, None, 'in' if is_cat == cat else 'out')
    for rel in (True, False):
        yield f'related {rel}', {'related_uuid': ('?', 'same')}, {}, {}, rel, 'in' if rel else 'out'
    A, B, C = ('c', 'A'), ('c', 'B'), ('c', 'C')
    for text, want, have, ok in (('the same', {'k': A}, {'k': A}, True), ('more recorded', {'k': A}, {'k': A, 'l': B}, True), ('value different', {'k': A}, {'k': B}, False),
                                 ('second different', {'k': A, 'l': B}, {'k': A, 'l': C}, False), ('first different', {'k': A, 'l': B}, {'k': C, 'l': B, 'm': A}, False),
                                 ('not recorded', {'k': A}, {'l': A, 'm': A}, False), ('none recorded', {'k': A}, {}, False), ('nothing wanted', {}, {}, True)):
        yield f'extra metadata {text}', {}, {'extra': ('map', want)}, {'extra_metadata': ('map', have)}, None, 'in' if ok else 'out'
    # of two criteria one is not met
    for c, d in (('realization', 'facet'), ('facet', 'realization'), ('uom', 'time_index'), ('time_index', 'uom'), ('indexable', 'continuous'), ('count', 'points'), ('property_kind', 'facet_type'),
                 ('support_uuid', 'const_value'), ('const_value', 'support_uuid')):
        yield f'{c} the same, {d} different', {c: (CRITERIA[c], 'same'), d: (CRITERIA[d], 'differ')}, {}, {}, None, 'out'
        yield f'{c} and {d} the same', {c: (CRITERIA[c], 'same'), d: (CRITERIA[d], 'same')}, {}, {}, None, 'in'


def model_scenarios():
    """(text, scen, consts, relkind, meta, extra, expected)"""
    yield 'no criteria', {}, {}, None, None, None, 'in'
    yield 'not a candidate', {}, {'parts_list': ('list', [('part', 'another')])}, None, None, None, 'out'
    yield 'no candidates', {}, {'parts_list': ('list', [])}, None, None, None, 'out'
    yield 'the only candidate', {}, {'parts_list': ('list', [('part',)])}, None, None, None, 'in'
    for r in ('same', 'differ', 'absent'):
        yield f'uuid {r}', {'uuid': ('uuid', r)}, {}, None, None, None, 'in' if r == 'same' else 'out'
    yield 'uuid of a part not among the candidates', {'uuid': ('uuid', 'same')}, {'parts_list': ('list', [('part', 'another')])}, None, None, None, 'out'
    for r in ('same', 'differ'):
        for p in ('', ' prefixed'):
            yield f'type {r}{p}', {'obj_type': ('type', r + p)}, {}, None, None, None, 'in' if r == 'same' else 'out'
        for p in ('', ' slashed'):
            yield f'subdirectory {r}{p}', {'epc_subdir': ('part', r + p)}, {}, None, None, None, 'in' if r == 'same' else 'out'
    for m, r, ok in modes():
        if isinstance(m, str):
            for cs in (False, True):
                yield f'title mode {m}, {"" if cs else "in"}sensitive: {r}', {'title': ('citation_title', r)}, {'title_mode': m, 'title_case_sensitive': cs}, None, None, None, 'in' if ok else 'out'
                if r != 'differ':
                    ok2 = ok if not cs else m in NEGATED
                    yield (f'title mode {m}, {"" if cs else "in"}sensitive: {r} but for case', {'title': ('citation_title', r + ' but for case')}, {'title_mode': m, 'title_case_sensitive': cs},
                           None, None, None, 'in' if ok2 else 'out')
    kinds = {'source': 0, 'target': 1, 'soft': 2, 'neither': None, 'unknown': None}
    for k, n in kinds.items():
        for mode in (None, 0, 1, 2):
            ok = n is not None and mode in (None, n)
            yield f'relationship {k}, mode {mode}', {'related_uuid': ('?', 'same')}, {'related_mode': mode}, n if k != 'unknown' else 'unknown', None, None, 'in' if ok else 'out'
    A, B, C = ('c', 'A'), ('c', 'B'), ('c', 'C')
    for text, want, have, ok in (('the same', {'k': A}, {'k': A}, True), ('more recorded', {'k': A}, {'k': A, 'l': B}, True), ('value different', {'k': A}, {'k': B}, False),
                                 ('second different', {'k': A, 'l': B}, {'k': A, 'l': C}, False), ('first different', {'k': A, 'l': B}, {'k': C, 'l': B}, False),
                                 ('not recorded', {'k': A}, {'l': A}, False), ('none recorded', {'k': A}, {}, False)):
        yield f'extra metadata {text}', {}, {'extra': ('map', want)}, None, None, have, 'in' if ok else 'out'
        yield f'metadata {text}', {}, {'metadata': ('map', want)}, None, have, None, 'in' if ok else 'out'
    yield 'title the same, type different', {'title': ('citation_title', 'same'), 'obj_type': ('type', 'differ')}, {}, None, None, None, 'out'
    yield 'type the same, title different', {'title': ('citation_title', 'differ'), 'obj_type': ('type', 'same')}, {}, None, None, None, 'out'
    yield 'uuid the same, title different', {'title': ('citation_title', 'differ'), 'uuid': ('uuid', 'same')}, {}, None, None, None, 'out'
    yield 'related, title different', {'title': ('citation_title', 'differ'), 'related_uuid': ('?', 'same')}, {}, 0, None, None, 'out'
    yield 'title the same, not related', {'title': ('citation_title', 'same'), 'related_uuid': ('?', 'same')}, {}, None, None, None, 'out'


def run_property(repo, cls, fn, heads, sc):
    text, scen, consts, stored, related, exp = sc
    stubs = {'_set_support_and_model_from_collection': lambda s, r, a, k: NONE, 'check_and_warn_property_kind': lambda s, r, a, k: NONE}
    if related is not None:
        def part(s, r, a, k):
            ok = k.get('related_uuid') == ('s', 'related_uuid', ()) and ('part',) in (k.get('parts_list') or (a[:1] or [('list', [])])[0])[1]
            return ('part',) if ok and related else NONE
        stubs['part'] = part
        stubs['parts'] = lambda s, r, a, k: ('list', [('part',)] if part(s, r, a, k) != NONE else [])
    s = Select(repo, fn, cls, heads, scen, consts, stored, stubs)
    return s.run_env({fn.params[0]: ('coll', 's'), fn.params[1]: ('coll', 'o')})


def model_stubs(meta, extra):
    title = lambda s, r, a, k: ('o', 'citation_title', ())
    st = {'citation_title_for_node': title, 'title_for_root': title, '_title_for_root': title, '_root_for_part': lambda s, r, a, k: ('root',), 'root_for_part': lambda s, r, a, k: ('root',),
          'load_metadata_from_xml': lambda s, r, a, k: ('map', dict(extra)) if extra is not None else ('u',)}
    if meta is not None:
        def tag(s, r, a, k):
            v = meta.get(a[1][1]) if len(a) > 1 and a[1][0] == 'c' else None
            return ('node', v) if v is not None else NONE
        st['find_tag'] = tag
        st['find_tag_text'] = lambda s, r, a, k: (tag(s, r, a, k) + (NONE,))[1] if tag(s, r, a, k) != NONE else NONE
    return st


def run_model(repo, fn, sc):
    text, scen, consts, relkind, meta, extra, exp = sc
    s = Select(repo, fn, None, [], scen, consts, {}, model_stubs(meta, extra))
    s.relkind = relkind

    def result(s, r):
        if r[0] == 'list':
            return 'in' if ('part',) in r[1] else 'out'
        return 'in' if r[0] in ('dict', 'forest') else 'none' if r == NONE else '?'
    return s.run_env({fn.params[0]: ('model',)}, result = result)


def run_choice(repo, fn, n, how):
    """what is returned when n parts meet the criteria."""
    parts = [('part', i) for i in range(n)]
    s = Select(repo, fn, None, [], {}, {'multiple_handling': how}, {}, {
        '_parts': lambda s, r, a, k: ('list', list(parts)), 'parts': lambda s, r, a, k: ('list', list(parts)),
        '_sort_parts_list_by_timestamp': lambda s, r, a, k: ('list', [('part', 'newest'), ('part', 'middle'), ('part', 'oldest')][::1] if ('list', parts) in a else [])})

    def result(s, r):
        return 'None' if r == NONE else str(r[1]) if r[0] == 'part' else '?'
    return s.run_env({fn.params[0]: ('model',)}, result = result)


def collection_class(repo):
    return next(c for c in repo.classes.values() if c.name == 'PropertyCollection')


def extract(repo):
    r = Records(repo)
    rd = r.reads()
    sinks = {}
    for f, h, s, n in rd:
        sinks.setdefault(s, set()).add(h)
    return {'heads': r.heads, 'accessors': {k: sorted(map(str, v)) for k, v in sorted(r.accessors.items())}, 'provenance': {k: sorted(v) for k, v in sorted(r.provenance().items())},
            'sinks': {k: sorted(v) for k, v in sorted(sinks.items())},
            'passed': {f'{a} {b}': v for (a, b), v in sorted(r.passed(rd).items())}}


def check(chk):
    repo = chk.repo
    chk.rule('R1 (records): each position of the record kept of a property (and of an array being imported) has a heading, found where the record is written; what is written under a heading comes '
             'from the same xml elements as in the reference, each method which reports an item reads the heading of that item, and wherever an item is read to be used as a given argument, compared with '
             'a given value or returned by a given method, it is read from the heading which goes with that use. R2 (passing on): calls given much of a record are given all the reference gives. '
             'R3 (selection of properties) and R4 (selection of parts): for every criterion, and how it relates to what is recorded (the same, different, not recorded, part of it, but for case, any, none), '
             'the selection is evaluated abstractly, other conditions being followed both ways: the candidate is selected exactly if it meets the criterion; with two criteria, exactly if it meets both. '
             'R5: of several parts meeting the criteria the one returned is that asked for.')
    with open(SPEC, encoding = 'utf-8') as fh:
        spec = json.load(fh)
    r = Records(repo)
    rd = r.reads()
    for kind in ('property', 'imported'):
        if kind not in r.heads:
            chk.bad(f'no record {kind}', 'resqpy/property', f'the record of a {kind} array is no longer written as a whole')
            return
        f, n, _ = r.writers[kind]
        miss = set(spec['heads'][kind]) - set(r.heads[kind])
        dup = {h for h in r.heads[kind] if h is not None and r.heads[kind].count(h) > 1}
        if not (miss and None in r.heads[kind] or len(r.heads[kind]) >= len(spec['heads'][kind]) and miss and not dup):
            chk.check(not miss and not dup, f'heads {kind}', f'{f.path}:{n.lineno}', f'the record of a {kind} array does not have {", ".join(sorted(miss | dup))} (once)')
    known = set(spec['heads']['property']) | set(spec['heads']['imported'])
    # R1
    f, n, _ = r.writers['property']
    for h, tags in r.provenance().items():
        ref = spec['provenance'].get(h)
        if ref is None:
            continue
        a, b = {t for t in tags if t[0] != '.'}, {t for t in ref if t[0] != '.'}
        chk.check(not (a - b) and (not b or bool(a)), f'provenance {h}', f'{f.path}:{n.lineno}', f'what is recorded of a property as {h} is found from {", ".join(sorted(a)) or "nothing"} in its xml, '
                  f'not from {", ".join(sorted(b))}')
    for k, hs in spec['accessors'].items():
        now = r.accessors.get(k)
        if now is None:
            continue
        new = {h for h in map(str, now) if h not in hs and h in known or h == 'None' and None not in r.heads['property']}
        c = repo.classes.get('resqpy.property.property_collection.' + k.split('.')[0])
        m = c.methods.get(k.split('.')[1]) if c is not None else None
        chk.check(not new, f'accessor {k}', m.loc() if m is not None else k, f'{k} reads {", ".join(sorted(new))} of the record, in place of {", ".join(hs)}')
    nr = 0
    for f, h, s, n in rd:
        ref = spec['sinks'].get(s)
        if ref is None or h.split(': ')[1] not in known:
            continue
        nr += 1
        chk.check(h in ref or s == 'argument ' + h.split(': ')[1], f'read {f.qual} {s} {h}', f'{f.path}:{n.lineno}', f'{f.short} uses what is recorded as {h.split(": ")[1]} of the {h.split(":")[0]} array as {s}, for which '
                  f'{" or ".join(x.split(": ")[1] for x in ref)} is meant', {'function': f.qual, 'use': s, 'heading': h})
    # R2
    ps = r.passed(rd)
    for k, v in spec['passed'].items():
        fq, nm = k.split(' ')
        now = ps.get((fq, nm))
        if now is None:
            continue
        miss = sorted(a for a, h in v.items() if a not in now)
        chk.check(not miss, f'passed {k}', repo.fns[fq].loc() if fq in repo.fns else fq, f'{fq[7:]} does not pass on {", ".join(miss)} of the record to {nm}')
    for f, n, names, way in r.tails():
        chk.check(names == {'points_patch0', 'values_patch0'} and (way is None or way == ('imported: points', 'points_patch0')), f'tail {f.qual}', f'{f.path}:{n.lineno}',
                  f'{f.short} does not write imported arrays of points, and only those, under the name by which they are read (points_patch0)')
    # R3
    cls = collection_class(repo)
    fn = cls.methods.get('inherit_parts_selectively_from_other_collection')
    ns = 0
    if fn is not None:
        for sc in property_scenarios():
            out = run_property(repo, cls, fn, r.heads['property'], sc) - {'raise'}
            ns += 1
            said(chk, f'properties {sc[0]}', fn, 'a property', sc[0], out, sc[-1])
    # R4
    parts = repo.fns.get('resqpy.model._catalogue._parts')
    if parts is not None:
        for sc in model_scenarios():
            out = run_model(repo, parts, sc) - {'raise'}
            ns += 1
            said(chk, f'parts {sc[0]}', parts, 'a part', sc[0], out, sc[-1])
    # R5
    one = repo.fns.get('resqpy.model._catalogue._part')
    if one is not None:
        for n in (0, 1, 3):
            for how, exp in (('exception', 'raise'), ('first', '0'), ('none', 'None'), ('newest', 'newest'), ('oldest', 'oldest')):
                exp = {0: 'None', 1: '0'}.get(n, exp)
                out = run_choice(repo, one, n, how)
                ns += 1
                chk.check(out == {exp}, f'choice {n} {how}', one.loc(), f'with {n} parts meeting the criteria and multiple_handling {how!r}, the outcome may be {", ".join(sorted(out))}, not {exp}')
    chk.floor('reads of records judged', nr, 150)
    chk.floor('scenarios of selection evaluated', ns, 350)


def said(chk, key, fn, what, text, out, exp):
    wrong = out - {exp}
    chk.check(not wrong and bool(out), key, fn.loc(), f'{what} may be {"selected" if "in" in wrong else "left out" if "out" in wrong else "of an outcome " + ", ".join(sorted(wrong) or ["never reached"])} '
              f'by {fn.name}, in the case: {text}', {'case': text, 'outcomes': sorted(out), 'expected': exp})
