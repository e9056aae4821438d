"""Per-class persistence facts: what is written to xml / hdf5 from which attribute, what is read into which attribute."""

import ast

from .interp import Interp, Val, BOT, NONE, EMPTY, const, dep_only, join, relevant_closure, pretty, MODEL, XNode
from .repo import Cls, Fn, AnalysisBroken

XML = 'resqpy.olio.xml_et.'
MX = 'resqpy.model._xml.'
H5REG = 'resqpy.olio.write_hdf5.H5Register'

SEEDS = {
    'find_tag', 'find_tag_text', 'find_tag_int', 'find_tag_float', 'find_tag_bool', 'find_nested_tags',
    'find_nested_tags_text', 'find_nested_tags_int', 'find_nested_tags_float', 'find_nested_tags_bool', 'list_of_tag',
    'node_type', 'node_text', 'node_int', 'node_bool', 'node_float', 'SubElement', 'Element', 'register_dataset',
    'create_hdf5_dataset_ref', 'create_ref_node', 'create_reciprocal_relationship',
    'create_reciprocal_relationship_uuids', 'h5_uuid_and_path_for_node', 'h5_array_element', 'h5_array_slice',
    'add_part', 'create_citation', 'load_metadata_from_xml', 'create_metadata_xml', 'find_nested_tags_cast', 'count_tag',
    'load_hdf5_array', 'array_cell_geometry_is_defined', 'referenced_node', 'h5_array_shape_and_type',
}


class IOInterp(Interp):
    """interpreter configured for persistence facts of one class."""

    def __init__(self, repo, relevant):
        super().__init__(repo, relevant, small=120)
        self.intr.update(build_intrinsics())
        self.h5regs = []
        self.h5refs = []
        self.h5loads = []
        self.reads = []       # (atom, kind, event)
        self.refs = []
        self.rels = []
        self.addparts = []

    def call_fn(self, fr, fn, args, kw, e, recv):
        # methods of other objects are opaque (they are analysed as their own class)
        if recv is not None and recv[0] == 'new' and fn.qual not in self.intr and fn.name not in ('register_dataset',):
            if not (fn.is_prop or (self.size(fn) < 60 and fn.qual not in self.relevant)):
                return Val(frozenset([('call', self.site(fr, e), fn.qual)]), dep_only(*args, *kw.values()).deps)
        if recv is not None and recv[0] in ('attr', 'param') and fn.qual not in self.intr:
            c = self.typeof(recv)
            if c is not None and c.qual == MODEL and not (fn.name.startswith('_') and fr.fn is not None and fr.fn.cls is not None and fr.fn.cls.qual == MODEL):
                if fn.name not in MODEL_INLINE and not fn.qual in self.intr and ('.' + fn.name) not in self.intr:
                    return Val(frozenset([('mcall', fn.name, self.site(fr, e))]), dep_only(*args[1:], *kw.values()).deps)
        return super().call_fn(fr, fn, args, kw, e, recv)


MODEL_INLINE = {
    'create_ref_node', 'create_hdf5_dataset_ref', 'create_citation', 'create_crs_reference', 'create_md_datum_reference',
    'create_patch', 'create_source', 'create_supporting_representation', 'create_solitary_point3d', 'uom_node', 'create_unknown',
    'create_reciprocal_relationship', 'create_reciprocal_relationship_uuids', 'create_time_series_ref', 'new_obj_node',
    'h5_uuid_and_path_for_node',
}


def _arg(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if i is not None and i < len(args):
        return args[i]
    return default


def _xr_bases(v):
    return [a for a in v.ids if a[0] in ('xr', 'root', 'param', 'attr', 'el', 'comp', 'item')]


def _child(v, tags):
    ids = set()
    for a in _xr_bases(v):
        if Interp.adepth(a) > 7:
            continue
        for t in tags or ['?']:
            ids.add(('xr', a, t))
    return ids


def build_intrinsics():
    I = {}

    # ----- xml creation
    def subelement(it, fr, e, args, kw, recv):
        return it.new_xnode(fr, e, _arg(args, kw, 1, '_tag', BOT), args[0] if args else BOT)

    def element(it, fr, e, args, kw, recv):
        return it.new_xnode(fr, e, _arg(args, kw, 0, '_tag', BOT), None)

    I['lxml.etree.SubElement'] = subelement
    I['lxml.etree.Element'] = element

    # ----- xml reading
    def find_tag(it, fr, e, args, kw, recv):
        ids = _child(_arg(args, kw, 0, 'root', BOT), _arg(args, kw, 1, 'tag_name', BOT).tags())
        for a in ids:
            it.reads.append((a, 'node', it.event(fr, 'xread', e, node=a, how='node')))
        return Val(frozenset(ids), EMPTY)

    def mk(kind, nested=False):

        def f(it, fr, e, args, kw, recv):
            base = _arg(args, kw, 0, 'root', BOT)
            if nested:
                tl = _arg(args, kw, 1, 'tag_list', BOT)
                lists = [[x.tags() for x in a[1]] for a in tl.ids if a[0] == 'tup']
                if not lists:
                    tg = tl.tags()
                    lists = [[tg]] if tg else []
                cur = set()
                for l in lists:
                    v = base
                    for tags in l:
                        v = Val(frozenset(_child(v, tags)))
                    cur |= set(v.ids)
                ids = cur
            else:
                ids = _child(base, _arg(args, kw, 1, 'tag_name', BOT).tags())
            for a in ids:
                it.reads.append((a, kind, it.event(fr, 'xread', e, node=a, how=kind)))
            if kind == 'node':
                return Val(frozenset(ids))
            at = frozenset(('xv', a, kind) for a in ids)
            return Val(at, at)

        return f

    for kind in ('text', 'int', 'float', 'bool'):
        I[XML + 'find_tag_' + kind] = mk(kind)
        I[XML + 'find_nested_tags_' + kind] = mk(kind, True)

        def nodek(it, fr, e, args, kw, recv, kind=kind):
            ids = [a for a in args[0].ids if a[0] in ('xr', 'root')] if args else []
            for a in ids:
                it.reads.append((a, kind, it.event(fr, 'xread', e, node=a, how=kind)))
            at = frozenset(('xv', a, kind) for a in ids)
            return Val(at, at | (args[0].deps if args else EMPTY))

        I[XML + 'node_' + kind] = nodek
    I[XML + 'find_nested_tags'] = mk('node', True)
    I[XML + 'find_tag'] = find_tag
    I[XML + 'list_of_tag'] = mk('node')
    I[XML + 'count_tag'] = mk('count')

    def list_desc(it, fr, e, args, kw, recv):
        return Val(frozenset(_child(Val(frozenset(_child(args[0], ['**']))), args[1].tags())))

    I[XML + 'list_of_descendant_tag'] = list_desc

    def cast(it, fr, e, args, kw, recv):
        dt = _arg(args, kw, 2, 'dtype', BOT)
        kinds = {a[2] for a in dt.ids if a[0] == 'ref' and a[1] == 'builtin'}
        kind = {'int': 'int', 'float': 'float', 'bool': 'bool', 'str': 'text'}.get(next(iter(kinds), ''), 'text')
        return mk(kind, True)(it, fr, e, args, kw, recv)

    I[XML + 'find_nested_tags_cast'] = cast

    def node_type(it, fr, e, args, kw, recv):
        ids = frozenset(('xv', a, 'attr:type') for a in args[0].ids if a[0] in ('xr', 'root')) if args else EMPTY
        for x in ids:
            it.reads.append((x[1], 'attr:type', it.event(fr, 'xread', e, node=x[1], how='attr:type')))
        return Val(ids, ids | (dep_only(args[0]).deps if args else EMPTY))

    I[XML + 'node_type'] = node_type

    def length_units(it, fr, e, args, kw, recv):
        ids = frozenset(('xv', a, 'text') for a in args[0].ids if a[0] in ('xr', 'root'))
        return Val(ids, ids)

    I[XML + 'length_units_from_node'] = length_units

    def load_md(it, fr, e, args, kw, recv):
        ids = frozenset(('xv', a, 'text') for a in _child(args[0], ['ExtraMetadata']))
        for x in ids:
            it.reads.append((x[1], 'text', it.event(fr, 'xread', e, node=x[1], how='text')))
        return Val(ids, ids)

    I[XML + 'load_metadata_from_xml'] = load_md

    def create_md(it, fr, e, args, kw, recv):
        node = _arg(args, kw, 0, 'node', BOT)
        v = _arg(args, kw, 1, 'extra_metadata', BOT)
        n = it.new_xnode(fr, e, const('ExtraMetadata'), node)
        a = next(iter(n.ids))
        ev = it.event(fr, 'xmltext', e, node=a, val=v)
        it.xnodes[a].texts.append((v, ev))
        return NONE

    I[XML + 'create_metadata_xml'] = create_md

    def cit_title(it, fr, e, args, kw, recv):
        ids = frozenset(('xv', a, 'text') for a in _child(Val(frozenset(_child(args[0], ['Citation']))), ['Title']))
        return Val(ids, ids | dep_only(args[0]).deps)

    I[XML + 'citation_title_for_node'] = cit_title

    def uuid_root(it, fr, e, args, kw, recv):
        ids = frozenset(('xv', a, 'attr:uuid') for a in args[0].ids if a[0] in ('xr', 'root'))
        return Val(ids, ids | dep_only(args[0]).deps)

    I[XML + 'uuid_for_part_root'] = uuid_root
    I['resqpy.olio.uuid.uuid_from_string'] = lambda it, fr, e, args, kw, recv: Val(
        frozenset(a for a in args[0].ids if a[0] in ('xv', 'attr', 'param', 'comp', 'item', 'el')), dep_only(args[0]).deps) if args else BOT
    I['resqpy.olio.uuid.string_from_uuid'] = I['resqpy.olio.uuid.uuid_from_string']

    # ----- model look-ups
    def root_of(it, fr, e, args, kw, recv):
        vals = [v for k, v in kw.items() if k in ('uuid', 'part', 'part_name')]
        u = vals[0] if vals else (args[1] if len(args) > 1 else BOT)
        return _root_for(u)

    def _root_for(u):
        ids = set()
        for a in u.ids:
            if a[0] == 'attr' and a[2] in ('uuid', 'part') and a[1][0] == 'self':
                ids.add(('root', 'self'))
            elif a[0] == 'part':
                ids |= set(_root_for(Val(frozenset([a[1]]))).ids)
            elif a[0] in ('attr', 'param', 'comp', 'item', 'el', 'xv', 'call'):
                ids.add(('root', a))
        return Val(frozenset(ids), dep_only(u).deps)

    for nm in ('root_for_uuid', 'root', 'root_for_part'):
        I[f'{MODEL}.{nm}'] = root_of

    def part_of(it, fr, e, args, kw, recv):
        u = kw.get('uuid') or (args[1] if len(args) > 1 else BOT)
        ids = frozenset(('part', a) for a in u.ids if a[0] in ('attr', 'param', 'comp', 'item', 'el', 'xv', 'call'))
        return Val(ids, dep_only(u).deps)

    I[f'{MODEL}.part_for_uuid'] = part_of
    I[f'{MODEL}.part'] = part_of

    def referenced(it, fr, e, args, kw, recv):
        n = kw.get('ref_node') or (args[1] if len(args) > 1 else BOT)
        ids = set()
        for a in n.ids:
            if a[0] == 'xr':
                x = ('xv', ('xr', a, 'UUID'), 'text')
                it.reads.append((('xr', a, 'UUID'), 'text', it.event(fr, 'xread', e, node=('xr', a, 'UUID'), how='text')))
                ids.add(('root', x))
        d = frozenset(x[1] for x in ids)
        return Val(frozenset(ids), d)

    I[f'{MODEL}.referenced_node'] = referenced

    # ----- hdf5
    def h5path(it, fr, e, args, kw, recv):
        node = _arg(args, kw, 1, 'node', BOT)
        tag = _arg(args, kw, 2, 'tag', const('Values'))
        ids = frozenset(('h5', a) for a in _child(node, tag.tags()))
        for a in ids:
            it.reads.append((a[1], 'h5', it.event(fr, 'xread', e, node=a[1], how='h5')))
        return Val(ids, EMPTY)

    I[f'{MODEL}.h5_uuid_and_path_for_node'] = h5path

    def h5elem(it, fr, e, args, kw, recv):
        kp = _arg(args, kw, 1, 'h5_key_pair', BOT)
        obj = _arg(args, kw, 4, 'object')
        attr = _arg(args, kw, 5, 'array_attribute')
        cache = _arg(args, kw, 3, 'cache_array', const(False))
        dt = _arg(args, kw, 6, 'dtype', const('float'))
        deps = set()
        for a in kp.flat():
            if a[0] == 'h5':
                deps.add(('xv', a[1], 'h5'))
            elif a[0] in ('attr', 'param', 'comp', 'item', 'el', 'call'):
                deps.add(a)
        names = attr.tags() if attr is not None else []
        if it.truth(cache) is not False and obj is not None:
            for a in obj.ids:
                for nm in names:
                    key = (a, nm)
                    it.heap[key] = join(it.heap.get(key), Val(EMPTY, frozenset(deps)))
        ev = it.event(fr, 'h5load', e, key=kp, obj=obj, attr=names, dtype=dt, cache=cache)
        it.h5loads.append(ev)
        return Val(EMPTY, frozenset(deps))

    I[f'{MODEL}.h5_array_element'] = h5elem

    def h5slice(it, fr, e, args, kw, recv):
        kp = _arg(args, kw, 1, 'h5_key_pair', BOT)
        deps = set()
        for a in kp.flat():
            if a[0] == 'h5':
                deps.add(('xv', a[1], 'h5'))
            elif a[0] in ('attr', 'param', 'comp', 'item', 'el'):
                deps.add(a)
        it.h5loads.append(it.event(fr, 'h5load', e, key=kp, obj=None, attr=[], dtype=BOT, cache=BOT))
        return Val(EMPTY, frozenset(deps))

    I[f'{MODEL}.h5_array_slice'] = h5slice
    I[f'{MODEL}.h5_array_shape_and_type'] = h5slice

    def regds(it, fr, e, args, kw, recv):
        ev = it.event(fr, 'h5reg', e, uuid=_arg(args, kw, 1, 'object_uuid', BOT), tail=_arg(args, kw, 2, 'group_tail', BOT),
                      arr=_arg(args, kw, 3, 'a', BOT), dtype=_arg(args, kw, 4, 'dtype'))
        it.h5regs.append(ev)
        return NONE

    I[f'{H5REG}.register_dataset'] = regds

    def dsref(it, fr, e, args, kw, recv):
        root = _arg(args, kw, 4, 'root', BOT)
        ev = it.event(fr, 'h5ref', e, ext=_arg(args, kw, 1, 'hdf5_uuid', BOT), uuid=_arg(args, kw, 2, 'object_uuid', BOT),
                      tail=_arg(args, kw, 3, 'group_tail', BOT), root=root)
        it.h5refs.append(ev)
        n = it.new_xnode(fr, e, const('PathInHdfFile'), root)
        return n

    I[MX + '_create_hdf5_dataset_ref'] = dsref

    def refnode(it, fr, e, args, kw, recv):
        flv = _arg(args, kw, 1, 'flavour', BOT)
        root = _arg(args, kw, 5, 'root', None)
        flv2 = Val(frozenset(('c', t[4:] if t.startswith('obj_') else t, 'str') for t in flv.tags()))
        n = it.new_xnode(fr, e, flv2, root)
        a = next(iter(n.ids))
        u = _arg(args, kw, 3, 'uuid', BOT)
        ev = it.event(fr, 'xref', e, flavour=flv2, title=_arg(args, kw, 2, 'title', BOT), uuid=u,
                      content_type=_arg(args, kw, 4, 'content_type', BOT), root=root, node=a)
        it.refs.append(ev)
        # the reference's uuid and title children
        for tag, val in (('UUID', u), ('Title', _arg(args, kw, 2, 'title', BOT))):
            atom = ('xn', a[1] + (tag,))
            x = it.xnodes.get(atom)
            if x is None:
                x = it.xnodes[atom] = XNode(atom[1], fr.fn, e, it.ctrl, fr.ctx)
                x.tags.add(tag)
                x.parents.add(a)
            x.texts.append((val, ev))
        return n

    I[MX + '_create_ref_node'] = refnode

    def recip(it, fr, e, args, kw, recv):
        ev = it.event(fr, 'rel', e, a=_arg(args, kw, 1, 'node_a', BOT), ta=_arg(args, kw, 2, 'rel_type_a', BOT),
                      b=_arg(args, kw, 3, 'node_b', BOT), tb=_arg(args, kw, 4, 'rel_type_b', BOT), by='node')
        it.rels.append(ev)
        return NONE

    I[MX + '_create_reciprocal_relationship'] = recip

    def recip_u(it, fr, e, args, kw, recv):
        ev = it.event(fr, 'rel', e, a=_arg(args, kw, 1, 'uuid_a', BOT), ta=_arg(args, kw, 2, 'rel_type_a', BOT),
                      b=_arg(args, kw, 3, 'uuid_b', BOT), tb=_arg(args, kw, 4, 'rel_type_b', BOT), by='uuid')
        it.rels.append(ev)
        return NONE

    I[MX + '_create_reciprocal_relationship_uuids'] = recip_u

    def addpart(it, fr, e, args, kw, recv):
        ev = it.event(fr, 'addpart', e, type=_arg(args, kw, 1, 'content_type', BOT), uuid=_arg(args, kw, 2, 'uuid', BOT),
                      root=_arg(args, kw, 3, 'root', BOT))
        it.addparts.append(ev)
        return NONE

    I[f'{MODEL}.add_part'] = addpart
    return I


def xpaths(it, atom, _seen=None, depth=0):
    """set of tag paths (tuples, from below the document root) of a created node; a path starting with '...' is open-ended."""
    _seen = _seen or ()
    if atom in _seen or depth > 9:
        return {('...',)}
    n = it.xnodes[atom]
    out = set()
    if not n.parents:
        return {()}
    for t in n.tags:
        for p in n.parents:
            if p[0] == 'xn':
                for pp in xpaths(it, p, _seen + (atom,), depth + 1):
                    out.add(pp + (t,))
            elif p[0] in ('root',):
                out.add((t,))
            else:
                out.add(('...', t))
    return out


def rpath(atom):
    """tag path of a read-node atom."""
    p = []
    while atom[0] == 'xr':
        p.append(atom[2])
        atom = atom[1]
    p.reverse()
    if atom == ('root', 'self'):
        return tuple(p)
    if atom[0] == 'root':
        return ('ROOT:' + pretty(atom[1]),) + tuple(p)
    return ('...',) + tuple(p)


class ClassIO:
    """facts of one class."""

    def __init__(self, repo, cls, relevant, rounds=2, skip=()):
        self.repo = repo
        self.cls = cls
        it = self.it = IOInterp(repo, relevant)
        seen = set()
        meths = []
        for k in repo.mro(cls):
            for nm, f in k.methods.items():
                if nm in seen:
                    continue
                seen.add(nm)
                meths.append(f)
        # loaders first so that attribute provenance is known to the writers
        order = {'_load_from_xml': 0, '__init__': 1}
        meths.sort(key=lambda f: (order.get(f.name, 5), f.qual))
        self.methods = [f for f in meths if f.qual in relevant or f.name in ('__init__',)]
        for _ in range(rounds):
            it.events = []
            it.h5regs, it.h5refs, it.h5loads, it.reads, it.refs, it.rels, it.addparts = [], [], [], [], [], [], []
            for n in it.xnodes.values():
                n.texts = []
                n.attribs = {}
            it.inlined = set()
            for private in (False, True):
                for f in self.methods:
                    if f.kind == 'static' or f.name in ('__eq__', '__ne__', '__repr__'):
                        continue
                    is_priv = f.name.startswith('_') and f.name not in ('_load_from_xml', '__init__')
                    if is_priv is not private or (private and f.qual in it.inlined):
                        continue
                    it.ctrl = ()
                    it.run_method(cls, f)


_REL = {}


def relevant_for(repo):
    k = id(repo)
    if k not in _REL:
        _REL[k] = relevant_closure(repo, SEEDS)
    return _REL[k]
