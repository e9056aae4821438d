"""Persistence summary of every class of the package that is stored as (part of) a RESQML object.

For each class the abstract interpreter (interp/iofacts) yields which attributes flow into which xml element, which
xml elements flow back into which attributes, and the same for hdf5 arrays, references and relationships.
The summaries are plain data so that they can be computed in parallel, one process per class.
"""

import ast
import os
import re
from concurrent.futures import ProcessPoolExecutor

from .interp import pretty
from .iofacts import ClassIO, relevant_for, rpath, xpaths
from .repo import Repo, AnalysisBroken

PRECISION = re.compile(r'\.\d+[a-zA-Z%]|%\d*\.\d+[a-zA-Z]')


def persisted_classes(repo):
    out = []
    for c in repo.classes.values():
        if repo.find_method(c, 'create_xml') or repo.find_method(c, '_load_from_xml'):
            out.append(c)
    return sorted(out, key=lambda c: c.qual)


def self_attrs(v):
    """names of the attributes of self which a value is (derived from)."""
    out = set()
    for a in v.flat():
        b = a
        while b[0] in ('attr', 'el', 'item', 'comp') and not (b[0] == 'attr' and b[1][0] == 'self'):
            b = b[1]
        if b[0] == 'attr' and b[1][0] == 'self':
            out.add(b[2])
    return out


def self_attr_chains(v):
    """attribute chains from self, e.g. represented_interp.uuid"""
    out = set()
    for a in v.flat():
        b = a
        chain = []
        while b[0] in ('attr', 'el', 'item', 'comp'):
            if b[0] == 'attr':
                chain.append(b[2])
            b = b[1]
        if b[0] == 'self' and chain:
            out.add('.'.join(reversed(chain)))
    return out


def const_items(v):
    """attribute elements with a constant position, e.g. extent_kji[0]."""
    out = set()
    for a in v.ids:
        if a[0] in ('item', 'comp') and a[1][0] == 'attr' and a[1][1][0] == 'self' and isinstance(a[2], int):
            out.add(f'{a[1][2]}[{a[2]}]')
    return out


def params_of(v):
    out = set()
    for a in v.flat():
        b = a
        while b[0] in ('attr', 'el', 'item', 'comp') and isinstance(b[1], tuple):
            b = b[1]
        if b[0] == 'param':
            out.add(b[2])
    return out


def ident_params(v):
    return {a[2] for a in v.ids if a[0] == 'param'}


TEXTOPS = {'strip', 'lstrip', 'rstrip', 'replace', 'split', 'rsplit', 'partition', 'rpartition', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'expandtabs', 'translate',
           'removeprefix', 'removesuffix', 'slice'}


ARROPS = {'maximum', 'minimum', 'clip', 'nan_to_num', 'sort', 'unique', 'flip', 'fliplr', 'flipud', 'roll', 'cumsum', 'diff', 'delete', 'negative', 'absolute', 'sign',
          'where', 'fix', 'around', 'swapaxes', 'transpose', 'round_', 'compress', 'cumprod', 'sqrt', 'multiply', 'add', 'subtract', 'divide', 'logical_not',
          'invert', 'fmax', 'fmin', 'argsort', 'extract', 'resize', 'zeros_like', 'ones_like', 'full_like', 'zeros', 'ones', 'full'}


def _local_defs(fn):
    d = {}
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    d.setdefault(t.id, []).append(n.value)
    return d


NUMTYPES = {'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float16', 'float32', 'float64', 'half', 'single', 'double', 'bool_'}


def _dtype_name(e):
    if isinstance(e, ast.Constant):
        return str(e.value)
    return ast.unparse(e).rsplit('.', 1)[-1]


def expr_ops(fn, expr, defs, seen=None, depth=0):
    """value changing operations applied (in the function) to reach an expression: arithmetic, rounding, precision limited formatting."""
    seen = seen if seen is not None else set()
    ops = set()
    if expr is None or depth > 4:
        return ops

    def visit(n):
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    if v.format_spec is not None and PRECISION.search(ast.unparse(v.format_spec)):
                        ops.add('format')
                    visit(v.value)
            return
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                if PRECISION.search(n.left.value):
                    ops.add('format')
                visit(n.right)
                return
            strs = [x for x in (n.left, n.right) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            if isinstance(n.op, ast.Add) and (strs or any(isinstance(x, ast.Call) and ast.unparse(x.func) == 'str' for x in (n.left, n.right))):
                pass
            else:
                ops.add(type(n.op).__name__)
            visit(n.left)
            visit(n.right)
            return
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
                return
            if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                ops.add(type(n.op).__name__)
            visit(n.operand)
            return
        if isinstance(n, ast.IfExp):
            visit(n.body)
            visit(n.orelse)
            return
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            short = f.rsplit('.', 1)[-1]
            if short in ('round', 'rint', 'floor', 'ceil', 'trunc', 'abs'):
                ops.add(short)
            if isinstance(n.func, ast.Attribute) and short in TEXTOPS | ARROPS:
                ops.add(short)
            if short == 'int' and n.args and not isinstance(n.args[0], ast.Constant):
                ops.add('int')
            if short == 'format' and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant) and \
                    isinstance(n.func.value.value, str) and PRECISION.search(n.func.value.value):
                ops.add('format')
            if short == 'astype' and isinstance(n.func, ast.Attribute):
                for x in n.args[:1] + [k.value for k in n.keywords if k.arg == 'dtype']:
                    ops.add('cast:' + _dtype_name(x))
            elif f.split('.')[0] in ('np', 'numpy'):
                if short in NUMTYPES:
                    ops.add('cast:' + short)
                for k in n.keywords:
                    if k.arg == 'dtype':
                        ops.add('cast:' + _dtype_name(k.value))
            if isinstance(n.func, ast.Attribute):
                visit(n.func.value)
            for x in n.args:
                visit(x)
            for k in n.keywords:
                visit(k.value)
            return
        if isinstance(n, ast.Name):
            if n.id not in seen and n.id in defs:
                seen.add(n.id)
                for d in defs[n.id]:
                    ops.update(expr_ops(fn, d, defs, seen, depth + 1))
            return
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                ops.add('slice')
            visit(n.value)   # the index does not change the value
            return
        if isinstance(n, (ast.Compare, ast.BoolOp)):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(expr)
    return ops


def _truthy(ctrl):
    """attributes (or parameters) whose truthiness (not: presence) the construct is conditional on."""
    out = set()
    for t, e, pol, _ in ctrl:
        x = e
        neg = False
        while isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            x = x.operand
            neg = not neg
        if not isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)):
            continue
        if neg == pol:
            continue
        for a in t.ids:
            b = a
            while b[0] in ('el', 'item', 'comp'):
                b = b[1]
            if b[0] == 'attr' and b[1][0] == 'self':
                out.add(b[2])
            elif b[0] == 'param':
                out.add(b[2])
    return out


def _test_atoms(e, pol, out):
    """plain names/attributes a condition implies to be true or false."""
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e = e.operand
        pol = not pol
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if pol else ast.Or):
        for x in e.values:
            _test_atoms(x, pol, out)
    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        out.add((e.attr, pol))


def _const_polarity(v, ev):
    """(constant, attribute, polarity) for constant text written under a condition on an attribute."""
    out = set()
    base = set()
    for _, e, pol, _ in ev.ctrl:
        if isinstance(e, ast.expr):
            _test_atoms(e, pol, base)
    val = ev.node.value if isinstance(ev.node, ast.Assign) else None

    def walk(x, atoms):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            out.update((x.value, a, p) for a, p in atoms)
        elif isinstance(x, ast.IfExp):
            for br, p in ((x.body, True), (x.orelse, False)):
                a2 = set(atoms)
                _test_atoms(x.test, p, a2)
                walk(br, a2)

    if val is not None:
        walk(val, base)
    return out


class _Parents:

    def __init__(self):
        self.m = {}

    def stmt_value(self, fn, node):
        """value expression of the statement which holds an expression node, and the expressions between."""
        pm = self.m.get(fn.qual)
        if pm is None:
            pm = self.m[fn.qual] = {}
            for n in ast.walk(fn.node):
                for c in ast.iter_child_nodes(n):
                    pm[id(c)] = n
        chain = []
        cur = node
        while id(cur) in pm:
            par = pm[id(cur)]
            if isinstance(par, ast.stmt):
                break
            chain.append(par)
            cur = par
        return chain


def _read_ops(fn, node, parents):
    ops = set()
    prev = node
    for p in parents.stmt_value(fn, node):
        if isinstance(p, ast.BinOp):
            s = [x for x in (p.left, p.right) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            if not s:
                ops.add(type(p.op).__name__)
        elif isinstance(p, ast.UnaryOp) and isinstance(p.op, (ast.USub, ast.Not, ast.Invert)):
            ops.add(type(p.op).__name__)
        elif isinstance(p, ast.Call) and prev is not p.func:
            short = ast.unparse(p.func).rsplit('.', 1)[-1]
            if short in ('round', 'rint', 'floor', 'ceil', 'trunc', 'abs', 'int'):
                ops.add(short)
        elif isinstance(p, ast.Attribute) and p.attr in TEXTOPS:
            ops.add(p.attr)
        elif isinstance(p, ast.Subscript) and prev is p.value and isinstance(p.slice, ast.Slice):
            ops.add('slice')
        elif isinstance(p, (ast.Compare, ast.BoolOp, ast.IfExp)):
            if isinstance(p, ast.IfExp) and prev is p.test:
                break
            if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.Or) and prev is not p.values[-1]:
                ops.add('or')   # a zero (or False) read is replaced
            if isinstance(p, ast.Compare):
                break
        prev = p
    return ops


def _self_store(st):
    """whether the statement stores something in the object."""
    def own(t):
        while isinstance(t, ast.Subscript):
            t = t.value
        return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'
    if isinstance(st, ast.Assign):
        return any(own(t) for t in st.targets)
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
        return st.value.func.attr in ('append', 'add', 'insert', 'extend', 'update') and own(st.value.func.value)
    return False


def _onward(fn, node, parents):
    """operations on what is read, between the variable it is put in and the attribute it ends up in."""
    parents.stmt_value(fn, node)
    pm = parents.m[fn.qual]
    st = node
    while id(st) in pm and not isinstance(st, ast.stmt):
        st = pm[id(st)]
    if not isinstance(st, ast.Assign) or len(st.targets) != 1 or not isinstance(st.targets[0], ast.Name):
        return set()
    nm, ops = st.targets[0].id, set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load):
            s = n
            while id(s) in pm and not isinstance(s, ast.stmt):
                s = pm[id(s)]
            if _self_store(s) or s is not st and isinstance(s, ast.Assign) and s.targets[0] is not n and isinstance(s.targets[0], ast.Name) and s.targets[0].id == nm:
                inside = n
                chain = parents.stmt_value(fn, n)
                if any(isinstance(c, ast.Subscript) and inside is c.slice for c in chain[:1]):
                    continue
                ops |= _read_ops(fn, n, parents) & (TEXTOPS | {'round', 'rint', 'floor', 'ceil', 'trunc', 'abs', 'USub', 'Not', 'or'})
    return ops


def _conditions(fn, node, parents, defs):
    """attributes of the object, and tags of its xml, which decide (within the function) whether something is read or stored."""
    parents.stmt_value(fn, node)
    pm = parents.m[fn.qual]
    tests = []
    cur = node
    while id(cur) in pm:
        par = pm[id(cur)]
        if isinstance(par, (ast.If, ast.IfExp, ast.While)) and cur is not par.test:
            tests.append(par.test)
        if isinstance(par, ast.FunctionDef):
            break
        cur = par
    out = set()

    def tokens(e, seen):
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                out.add(x.attr)
            elif isinstance(x, ast.Name) and x.id in defs and x.id not in seen:
                seen.add(x.id)
                for d in defs[x.id]:
                    tokens(d, seen)
    for t in tests:
        tokens(t, set())
    return out


def _num(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = _num(e.operand)
        return None if v is None else -v
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    return None


_FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
_NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def _strs(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return {e.value}
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)) and e.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts):
        return {x.value for x in e.elts}
    return set()


def cond_tokens(e, pol, defs, out, seen=None):
    """what a condition compares with: numeric limits (in a normal form) and texts, for the given outcome; constant item positions; cuts of a sequence."""
    seen = set() if seen is None else seen
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        cond_tokens(e.operand, not pol, defs, out, seen)
        return
    if isinstance(e, ast.BoolOp):
        for x in e.values:
            cond_tokens(x, pol, defs, out, seen)
        return
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op, l, r = type(e.ops[0]), e.left, e.comparators[0]
        if not pol:
            op = _NEG[op]
        for a, b, o in ((l, r, op), (r, l, _FLIP.get(op))):
            v = _num(b)
            if v is not None and o in _FLIP:
                if isinstance(v, int) and o is ast.Gt:
                    out.add(f'lim >={v + 1}')
                elif isinstance(v, int) and o is ast.Lt:
                    out.add(f'lim <={v - 1}')
                else:
                    out.add('lim ' + {ast.Gt: '>', ast.Lt: '<', ast.GtE: '>=', ast.LtE: '<=', ast.Eq: '==', ast.NotEq: '!='}[o] + str(v))
            for t in _strs(b):
                if o in (ast.Eq, ast.In):
                    out.add('text ' + t)
                elif o in (ast.NotEq, ast.NotIn):
                    out.add('not ' + t)
        if not any(op is o for o in (ast.Is, ast.IsNot)) or True:
            for x in (l, r):
                cond_tokens(x, True, defs, out, seen)
        return
    for x in ast.walk(e):
        if isinstance(x, ast.Subscript):
            if isinstance(x.slice, ast.Slice):
                out.add('cut')
            elif _num(x.slice) is not None:
                out.add(f'item {_num(x.slice)}')
        elif isinstance(x, ast.Call) and ast.unparse(x.func).rsplit('.', 1)[-1] in ('min', 'max', 'minimum', 'maximum', 'clip', 'any', 'all', 'filter', 'islice',
                                                                                    'unique', 'set', 'isclose', 'allclose', 'array_equal'):
            out.add('by ' + ast.unparse(x.func).rsplit('.', 1)[-1])
        elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.FloorDiv, ast.Mod, ast.Div)):
            out.add('op ' + type(x.op).__name__)
        elif isinstance(x, ast.Name) and x.id in defs and x.id not in seen:
            seen.add(x.id)
            for d in defs[x.id]:
                cond_tokens(d, True, defs, out, seen)


def ctrl_tokens(ctrl, fns, dget):
    """(attributes and arguments, comparisons) on which an event depends."""
    who, toks = set(), set()
    for t, e, pol, fq in ctrl:
        who |= self_attrs(t) | {'arg ' + p for p in params_of(t)}
        fn = fns.get(fq)
        if isinstance(e, ast.expr):
            cond_tokens(e, pol, dget(fn) if fn is not None else {}, toks)
    return sorted(who), sorted(toks)


def _tail(v):
    """text patterns of an hdf5 group tail: constants, or constant pieces of formatted strings."""
    out = set()
    for a in v.ids:
        if a[0] == 'c' and isinstance(a[1], str):
            out.add(a[1])
    return sorted(out)


def _arg_ops(ev, dget):
    """value changing operations on the array argument of an hdf5 registration."""
    n = ev.node
    if not isinstance(n, ast.Call):
        return set()
    x = next((k.value for k in n.keywords if k.arg == 'a'), None)
    if x is None and len(n.args) > 2 and not any(isinstance(a, ast.Starred) for a in n.args[:3]):
        x = n.args[2]
    return expr_ops(ev.fn, x, dget(ev.fn))


def summarise(io):
    it = io.it
    cls = io.cls
    pars = _Parents()
    defs = {}
    fns = it.repo.fns

    def dget(fn):
        if fn.qual not in defs:
            defs[fn.qual] = _local_defs(fn)
        return defs[fn.qual]

    W = {}
    for a, n in it.xnodes.items():
        types = set()
        for k, vals in n.attribs.items():
            if str(k).endswith('type'):
                for v in vals:
                    types |= {t for t in v.tags()}
        for p in xpaths(it, a):
            path = '/'.join(p)
            w = W.setdefault(path, {'attrs': set(), 'chains': set(), 'params': set(), 'iparams': set(), 'consts': set(), 'texts': 0, 'const_only': True,
                                    'ops': set(), 'truthy': set(), 'types': set(), 'items': set(), 'cpol': set(), 'ctrl': set(),
                                    'where': set(), 'node_where': set()})
            w['types'] |= types
            w['node_where'].add(f'{n.fn.path}:{getattr(n.node, "lineno", 0)}' if n.fn else '')
            for v, ev in n.texts:
                w['texts'] += 1
                w['attrs'] |= self_attrs(v)
                w['chains'] |= self_attr_chains(v)
                w['items'] |= const_items(v)
                w['params'] |= params_of(v)
                w['iparams'] |= ident_params(v)
                w['consts'] |= {str(x[1]) for x in v.flat() if x[0] == 'c' and x[1] is not None}
                if v.flat() and not all(x[0] == 'c' for x in v.flat()):
                    w['const_only'] = False
                w['where'].add(f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}')
                w['cpol'] |= _const_polarity(v, ev)
                for t, _, _, _ in ev.ctrl:
                    w['ctrl'] |= self_attrs(t)
                if isinstance(ev.node, ast.Assign):
                    w['ops'] |= expr_ops(ev.fn, ev.node.value, dget(ev.fn))
                    w['truthy'] |= _truthy(ev.ctrl)
                if ev.kind == 'xref':
                    w['truthy'] |= _truthy(ev.ctrl)
            for k, vals in n.attribs.items():
                if str(k).endswith(('type', 'uuid', 'schemaVersion')) or k == '?':
                    continue
                w = W.setdefault(f'{path}@{k}', {'attrs': set(), 'chains': set(), 'params': set(), 'iparams': set(), 'consts': set(), 'texts': 0,
                                                 'const_only': True, 'ops': set(), 'truthy': set(), 'types': set(), 'items': set(), 'cpol': set(),
                                                 'ctrl': set(), 'where': set(), 'node_where': set()})
                for v in vals:
                    w['texts'] += 1
                    w['attrs'] |= self_attrs(v)
                    w['chains'] |= self_attr_chains(v)
                    w['params'] |= params_of(v)
                    w['iparams'] |= ident_params(v)
                w['where'].add(f'{n.fn.path}:{getattr(n.node, "lineno", 0)}' if n.fn else '')
    R = {}

    def rget(path):
        return R.setdefault(path, {'attrs': set(), 'kinds': set(), 'ops': set(), 'where': set(), 'items': set(), 'ctrl': set()})

    for a, kind, ev in it.reads:
        p = rpath(a)
        r = rget('/'.join(p))
        r['kinds'].add(kind)
        r['where'].add(f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}')
        if kind not in ('node',):
            r['ops'] |= _read_ops(ev.fn, ev.node, pars) | _onward(ev.fn, ev.node, pars)
        r['ctrl'] |= _conditions(ev.fn, ev.node, pars, dget(ev.fn))
    for (a, at), v in it.heap.items():
        if a[0] != 'self':
            continue
        for x in v.flat():
            if x[0] == 'xv':
                path = '/'.join(rpath(x[1]))
                if x[2].startswith('attr:') and x[2] not in ('attr:type', 'attr:uuid', 'attr:*'):
                    path += '@' + x[2][5:]
                r = rget(path)
                r['attrs'].add(at)
                r['kinds'].add(x[2])
        for x in v.ids:
            if x[0] == 'tup':
                for i, el in enumerate(x[1]):
                    for y in el.ids:
                        if y[0] == 'xv':
                            rget('/'.join(rpath(y[1])))['items'].add(f'{at}[{i}]')
    # property dictionary fields: position in the tuple stored per part
    fields = {}
    for (a, at), v in it.heap.items():
        if a[0] == 'self' and at == 'dict':
            for x in v.ids:
                if x[0] == 'tup' and len(x[1]) > 15:
                    for i, el in enumerate(x[1]):
                        for y in el.flat():
                            if y[0] == 'xv':
                                fields.setdefault(i, set()).add('/'.join(rpath(y[1])) + ':' + y[2])
    regs = []
    for ev in it.h5regs:
        regs.append({'tail': _tail(ev.data['tail']), 'attrs': sorted(self_attrs(ev.data['arr'])), 'params': sorted(params_of(ev.data['arr'])),
                     'uuid': sorted(self_attr_chains(ev.data['uuid'])), 'uparams': sorted(params_of(ev.data['uuid'])),
                     'opaque': not any(x[0] == 'c' and isinstance(x[1], str) and x[1].strip('{}') for x in ev.data['tail'].ids),
                     'where': f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}', 'fn': ev.fn.short,
                     'dtype': _dtype(ev.data.get('dtype')), 'truthy': sorted(_truthy(ev.ctrl)), 'ops': sorted(_arg_ops(ev, dget)),
                     'cond': ctrl_tokens(ev.ctrl, fns, dget)})
    h5refs = []
    for ev in it.h5refs:
        paths = set()
        for a in ev.data['root'].ids:
            if a[0] == 'xn':
                paths |= {'/'.join(p) for p in xpaths(it, a)}
            else:
                paths.add('...')
        h5refs.append({'tail': _tail(ev.data['tail']), 'paths': sorted(paths), 'uuid': sorted(self_attr_chains(ev.data['uuid'])),
                       'uparams': sorted(params_of(ev.data['uuid'])),
                       'opaque': not any(x[0] == 'c' and isinstance(x[1], str) and x[1].strip('{}') for x in ev.data['tail'].ids),
                       'where': f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}', 'fn': ev.fn.short, 'cond': ctrl_tokens(ev.ctrl, fns, dget)})
    loads = []
    for ev in it.h5loads:
        paths = {'/'.join(rpath(a[1])) for a in ev.data['key'].flat() if a[0] == 'h5'}
        loads.append({'paths': sorted(paths), 'attrs': sorted(str(x) for x in ev.data['attr']), 'dtype': _dtype(ev.data.get('dtype')),
                      'self': bool(ev.data['obj'] is not None and any(a[0] == 'self' for a in ev.data['obj'].ids)),
                      'where': f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}', 'fn': ev.fn.short, 'cond': ctrl_tokens(ev.ctrl, fns, dget)})
    refs = []
    for ev in it.refs:
        par = set()
        for p in xpaths(it, ev.data['node']):
            par.add('/'.join(p))
        refs.append({'flavour': ev.data['flavour'].tags(), 'paths': sorted(par), 'uuid': sorted(_targets(ev.data['uuid'])),
                     'ctype': sorted({str(t) for t in ev.data['content_type'].tags()}),
                     'where': f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}', 'fn': ev.fn.short, 'ctrl': _ctrl_key(ev.ctrl),
                     'ctx': [c[0] for c in ev.ctx], 'cond': ctrl_tokens(ev.ctrl, fns, dget)})
    rels = []
    for ev in it.rels:
        rels.append({'a': sorted(_targets(ev.data['a'])), 'b': sorted(_targets(ev.data['b'])), 'ta': sorted(str(x) for x in ev.data['ta'].tags()),
                     'tb': sorted(str(x) for x in ev.data['tb'].tags()), 'where': f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}', 'fn': ev.fn.short,
                     'ctrl': _ctrl_key(ev.ctrl), 'ctx': [c[0] for c in ev.ctx], 'by': ev.data['by'], 'cond': ctrl_tokens(ev.ctrl, fns, dget)})
    parts = []
    for ev in it.addparts:
        parts.append({'type': sorted(str(x) for x in ev.data['type'].tags()), 'uuid': sorted(_targets(ev.data['uuid'])),
                      'root': sorted(_targets(ev.data['root'])), 'where': f'{ev.fn.path}:{getattr(ev.node, "lineno", 0)}', 'fn': ev.fn.short})
    return {'cls': cls.qual, 'W': W, 'R': R, 'fields': fields, 'regs': regs, 'h5refs': h5refs, 'loads': loads, 'refs': refs, 'rels': rels,
            'parts': parts, 'calls': it.calls, 'fns': len(it.inlined), 'xnodes': len(it.xnodes), 'inlined': sorted(it.inlined)}


def _dtype(v):
    if v is None:
        return []
    out = set()
    for a in v.flat():
        if a[0] == 'c':
            out.add(str(a[1]))
        elif a[0] == 'ref':
            out.add(str(a[2]).rsplit('.', 1)[-1])
    return sorted(out)


def _targets(v):
    """what object a uuid / root / part value denotes, in a normal form."""
    out = set()
    for a in v.ids if v.ids else v.deps:
        out.add(_norm(a))
    return out


def _norm(a):
    if a[0] == 'root':
        if a[1] == 'self' or a == ('root', 'self'):
            return 'self'
        return _norm(a[1]) if isinstance(a[1], tuple) else str(a[1])
    if a[0] == 'part':
        return _norm(a[1])
    if a[0] == 'attr':
        if a[2] in ('uuid', 'root', 'root_node', 'part'):
            return _norm(a[1]) if a[1][0] != 'self' else 'self'
        return _norm(a[1]) + '.' + a[2]
    if a[0] == 'self':
        return 'self'
    if a[0] == 'param':
        return 'arg:' + a[2]
    if a[0] in ('el', 'item', 'comp'):
        return _norm(a[1]) + '[]'
    if a[0] == 'xn':
        return 'newnode'
    if a[0] == 'xv':
        return 'xml:' + '/'.join(rpath(a[1]))
    if a[0] == 'new':
        return 'new:' + a[2].rsplit('.', 1)[-1]
    if a[0] == 'c':
        return 'const:' + str(a[1])
    return a[0]


def _ctrl_key(ctrl):
    return sorted({('' if pol else 'not ') + ast.unparse(e)[:120] for _, e, pol, _ in ctrl if isinstance(e, ast.expr)})


_WORK = None


def _one(qual):
    global _WORK
    if _WORK is None:
        import sys
        sys.setrecursionlimit(20000)
        _WORK = Repo()
    r = _WORK
    try:
        return summarise(ClassIO(r, r.classes[qual], relevant_for(r)))
    except AnalysisBroken as e:
        return {'cls': qual, 'broken': str(e)}


_CACHE = {}


def summaries(repo, only=None):
    """class qualified name -> summary, for every persisted class."""
    cl = [c.qual for c in persisted_classes(repo)]
    if only is not None:
        cl = [q for q in cl if only(q)]
    # the most expensive first
    heavy = ('BlockedWell', 'Grid', 'RegularGrid', 'GridPropertyCollection', 'WellIntervalPropertyCollection')
    cl.sort(key=lambda q: (heavy.index(q.rsplit('.', 1)[-1]) if q.rsplit('.', 1)[-1] in heavy else 99, q))
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        out = list(ex.map(_one, cl))
    for s in out:
        if 'broken' in s:
            raise AnalysisBroken(f'{s["cls"]}: {s["broken"]}')
    return {s['cls']: s for s in out}
