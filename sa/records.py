"""Records kept as tuples: what stands under each heading, and for what each heading is read."""

import ast

from .repo import walk_own

KINDS = {'dict': 'property', 'imported_list': 'imported'}


def names_of(t):
    return [x.id if isinstance(x, ast.Name) else None for x in t.elts]


class Records:

    def __init__(self, repo):
        self.repo = repo
        self.heads = {}
        self.writers = {}
        for f in repo.all_fns():
            if not f.module.name.startswith('resqpy.property'):
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Attribute) and n.targets[0].value.attr == 'dict':
                    self._writer('property', f, n, self._tuple(f, n.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and self._is(n.func.value, f, 'imported_list'):
                    self._writer('imported', f, n, self._tuple(f, n.args[0]))
        self.param_kind = {}
        for _ in range(3):
            before = dict(self.param_kind)
            for f in repo.all_fns():
                rv = self.record_vars(f)
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call) and rv:
                        g = self._fn(f, n)
                        if g is None:
                            continue
                        for i, a in enumerate(n.args):
                            if isinstance(a, ast.Name) and a.id in rv and i < len(g.params):
                                self.param_kind[(g.qual, g.params[i])] = rv[a.id]
                        for k in n.keywords:
                            if isinstance(k.value, ast.Name) and k.value.id in rv and k.arg:
                                self.param_kind[(g.qual, k.arg)] = rv[k.value.id]
            if before == self.param_kind:
                break
        self.accessors = self._accessors()
        self.of_property = {}

    def _is(self, e, f, attr):
        if isinstance(e, ast.Attribute):
            return e.attr == attr
        return isinstance(e, ast.Name) and any(isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == attr and
                                               any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) for n in walk_own(f.node))

    def _tuple(self, f, e):
        if isinstance(e, ast.Tuple):
            return e
        if isinstance(e, ast.Name):
            ds = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(ds) == 1:
                return self._tuple(f, ds[0])
        return None

    def _writer(self, kind, f, n, t):
        if t is not None and len(t.elts) > 8:
            self.heads[kind] = names_of(t)
            self.writers[kind] = (f, n, t)

    def _fn(self, f, call):
        if isinstance(call.func, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(f, call.func)
            if r is not None and r[0] == 'fn':
                return r[1]
        return None

    # ---- variables holding a record
    def record_vars(self, f):
        out = {p: self.param_kind[(f.qual, p)] for p in f.params if (f.qual, p) in self.param_kind}
        for n in walk_own(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                it, t = n.iter, n.target
                while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'list', 'tuple', 'reversed') and it.args:
                    if it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                        t = t.elts[1]
                    it = it.args[0]
                if isinstance(it, ast.Attribute) and it.attr == 'imported_list' and isinstance(t, ast.Name):
                    out[t.id] = 'imported'
                elif isinstance(it, ast.Name) and isinstance(t, ast.Name) and it.id.endswith('imported_list') or isinstance(it, ast.Name) and self._is(it, f, 'imported_list') and isinstance(t, ast.Name):
                    out[t.id] = 'imported'
                elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and isinstance(it.func.value, ast.Attribute) and it.func.value.attr == 'dict':
                    if it.func.attr == 'items' and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name):
                        out[t.elts[1].id] = 'property'
                    elif it.func.attr == 'values' and isinstance(t, ast.Name):
                        out[t.id] = 'property'
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple') and len(v.args) == 1:
                    v = v.args[0]
                k = self.kind_of(v, out)
                if k:
                    out[n.targets[0].id] = k
        return out

    def kind_of(self, e, rv):
        if isinstance(e, ast.Name):
            return rv.get(e.id)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr in KINDS:
            return KINDS[e.value.attr]
        return None

    # ---- reads
    def heading(self, kind, i):
        h = self.heads.get(kind, [])
        return h[i] if -len(h) <= i < len(h) else None

    def index_read(self, e, rv):
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            k = self.kind_of(e.value, rv)
            if k:
                return f'{k}: {self.heading(k, e.slice.value)}'
        return None

    def _accessors(self):
        """{method of a collection of properties: headings it reads of the record}"""
        out = {}
        for q, c in self.repo.classes.items():
            if not c.module.name.startswith('resqpy.property'):
                continue
            for m in c.methods.values():
                hs = set()
                for n in walk_own(m.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('element_for_part', 'unique_element_list'):
                        i = 1 if n.func.attr == 'element_for_part' else 0
                        a = n.args[i] if len(n.args) > i else next((k.value for k in n.keywords if k.arg == 'index'), None)
                        if isinstance(a, ast.Constant) and isinstance(a.value, int):
                            hs.add(self.heading('property', a.value))
                    elif isinstance(n, ast.Subscript):
                        r = self.index_read(n, self.record_vars(m)) if isinstance(n.ctx, ast.Load) or True else None
                        if r and r.startswith('property: '):
                            hs.add(r[10:])
                if hs:
                    out.setdefault(f'{c.name}.{m.name}', set()).update(hs)
        return out

    def read_of(self, e, rv, single):
        """heading read by expression e, or None."""
        r = self.index_read(e, rv)
        if r:
            return r
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in single:
            return 'property: ' + single[e.func.attr]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in self.props:
            return self.of_property.get(e.func.attr)
        return None

    props = ()

    def property_vars(self, f):
        out = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Name, ast.Attribute)):
                r = self.repo.resolve_expr(f, n.value.func)
                if r is not None and r[0] == 'cls' and r[1].name == 'Property':
                    out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        return out

    def reads(self):
        """(function, heading, what it is read for, node)"""
        single = {}
        for k, hs in self.accessors.items():
            nm = k.split('.')[1]
            if nm.endswith('_for_part') and len(hs) == 1:
                single[nm] = next(iter(hs))
        out = []
        if not self.of_property:
            for m in next((c for c in self.repo.classes.values() if c.name == 'Property' and c.module.name.startswith('resqpy.property'))).methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        h = self.read_of(n.value, {}, single)
                        if h:
                            self.of_property[m.name] = h
        for f in self.repo.all_fns():
            rv = self.record_vars(f)
            self.props = self.property_vars(f)
            self.nested = {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node}
            var = {}
            defs = {}
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            defs.setdefault(t.id, []).append(n.value)
                        elif isinstance(t, ast.Tuple):
                            k = self.kind_of(n.value, rv)
                            for i, x in enumerate(t.elts):
                                if isinstance(x, ast.Name):
                                    defs.setdefault(x.id, []).append(('heading', f'{k}: {self.heading(k, i)}') if k and len(t.elts) == len(self.heads.get(k, [])) else None)
            for nm, ds in defs.items():
                hs = {d[1] if isinstance(d, tuple) else self.read_of(d, rv, single) if d is not None else None for d in ds}
                plain = [d for d in ds if isinstance(d, ast.AST) and (isinstance(d, ast.Constant) or any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(d)))]
                hs -= {None}
                if len(hs) == 1 and sum(1 for d in ds if isinstance(d, tuple) or d is not None and self.read_of(d, rv, single)) + len(plain) == len(ds) and nm not in f.params:
                    var[nm] = next(iter(hs))
            if not (rv or var or self.props or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in single for n in walk_own(f.node))):
                continue
            for n in walk_own(f.node):
                for t in [n.test] if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) else n.ifs if isinstance(n, ast.comprehension) else []:
                    for x in ast.walk(t):
                        h = self.read_of(x, rv, single)
                        if h:
                            out.append((f, h, f'condition in {f.qual[7:]}', n if hasattr(n, 'lineno') else x))
                for e, sink in self.sinks(f, n):
                    for x in self.parts(e):
                        h = self.read_of(x, rv, single) or (var.get(x.id) if isinstance(x, ast.Name) else None)
                        if h:
                            out.append((f, h, sink, n))
        return out

    def parts(self, e):
        """the expressions whose value e passes on."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            yield from self.parts(e.operand)
        elif isinstance(e, ast.IfExp):
            yield from self.parts(e.body)
            yield from self.parts(e.orelse)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'int', 'float', 'bool') and len(e.args) == 1:
            yield from self.parts(e.args[0])
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.nested:
            for a in e.args:
                yield from self.parts(a)
        else:
            yield e

    def sinks(self, f, n):
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            g = self._fn(f, n)
            if g is None and isinstance(n.func, ast.Attribute):
                c = next((c for c in self.repo.classes.values() if c.module.name.startswith('resqpy.property') and nm in c.methods), None)
                g = c.methods[nm] if c is not None else None
            ps = g.params if g is not None else []
            if g is not None and g.cls is not None and g.kind == 'method':
                ps = ps[1:]
            for i, a in enumerate(n.args):
                if g is None and nm in ('hasattr', 'getattr', 'setattr', 'delattr') and i == 1:
                    yield a, 'name of attribute'
                elif nm == 'register_dataset' and i < 2:
                    yield a, ('uuid of dataset', 'tail')[i]
                elif i < len(ps) and ps[i] not in ('part', 'a', 'b', 'x', 'array', 'values', 'node', 'root', 'index', 'uuid', 'tag', 'parts_list', 'title'):
                    yield a, f'argument {ps[i]}'
            for k in n.keywords:
                if k.arg and (g is not None or k.arg in self.all_heads()):
                    yield k.value, f'argument {k.arg}'
            if nm in ('upper', 'lower'):
                return
        elif isinstance(n, ast.Return) and n.value is not None and f.cls is not None and not f.name.startswith('_'):
            yield n.value, f'returned by {f.cls.name}.{f.name}'
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__':
            yield n.slice, 'name of attribute'
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and isinstance(n.targets[0].slice.value, str):
            yield n.value, f'argument {n.targets[0].slice.value}'
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            yield n.value, f'attribute {n.targets[0].attr}'
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for a, b in ((l, r), (r, l)):
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ('upper', 'lower'):
                    a = a.func.value
                cs = [b] if isinstance(b, ast.Constant) else b.elts if isinstance(b, (ast.List, ast.Tuple, ast.Set)) else []
                if isinstance(b, ast.Name) and b.id in self.all_heads():
                    yield a, f'compared with {b.id}'
                for c in cs:
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        yield a, f'compared with {c.value!r}'

    def all_heads(self):
        return {h for hs in self.heads.values() for h in hs if h}

    def passed(self, reads):
        """{(function, called): {argument: heading}} of calls to which much of a record is passed on."""
        out = {}
        for f, h, s, n in reads:
            if s.startswith('argument ') and isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                out.setdefault((f.qual, nm), {}).setdefault(s[9:], h)
        return {k: v for k, v in out.items() if len(v) > 4}

    def tails(self):
        """(function, node, names of datasets chosen between, headings the choice is made by, right way round) of the writing of imported arrays."""
        out = []
        for f in self.repo.all_fns():
            rv = self.record_vars(f)
            if 'imported' not in rv.values():
                continue
            var = {}
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            var.setdefault(t.id, []).append(n.value)
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'register_dataset' and len(n.args) > 1:
                    u = n.args[0]
                    us = [u] + (var.get(u.id, []) if isinstance(u, ast.Name) else [])
                    if not any(self.index_read(x, rv) == 'imported: uuid' for x in us):
                        continue
                    t = n.args[1]
                    ts = var.get(t.id, [t]) if isinstance(t, ast.Name) else [t]
                    names = {x.value for e in ts for x in ast.walk(e) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                    way = None
                    for e in ts:
                        if isinstance(e, ast.IfExp):
                            test, neg = e.test, False
                            while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                                test, neg = test.operand, not neg
                            yes = e.orelse if neg else e.body
                            if self.index_read(test, rv) and isinstance(yes, ast.Constant):
                                way = self.index_read(test, rv), yes.value
                    out.append((f, n, names, way))
        return out

    # ---- where what is written under a heading comes from
    def provenance(self):
        """{heading: tags of xml, or names of functions it is found by}"""
        out = {}
        if 'property' not in self.writers:
            return out
        f, _, t = self.writers['property']
        for h, e in zip(self.heads['property'], t.elts):
            if h:
                tags = set()
                self._trace(f, e, tags, set(), 0)
                out[h] = tags
        return out

    def _trace(self, f, e, tags, seen, depth, pos=None, env=None):
        """env: {parameter of f: (calling function, argument, env there)}"""
        if depth > 6:
            return
        if isinstance(e, ast.Constant):
            return
        if isinstance(e, ast.Name):
            if (f.qual, e.id, pos) in seen:
                return
            seen.add((f.qual, e.id, pos))
            if env and e.id in env:
                g, a, v = env[e.id]
                self._trace(g, a, tags, seen, depth, pos, v)
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            self._trace(f, n.value, tags, seen, depth, pos, env)
                        elif isinstance(t, ast.Tuple):
                            for i, x in enumerate(t.elts):
                                if isinstance(x, ast.Name) and x.id == e.id:
                                    self._trace(f, n.value, tags, seen, depth, i, env)
            return
        if isinstance(e, ast.Tuple) and pos is not None and pos < len(e.elts):
            self._trace(f, e.elts[pos], tags, seen, depth, None, env)
            return
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
            self._trace(f, e.value, tags, seen, depth, e.slice.value, env)
            return
        if isinstance(e, ast.IfExp):
            self._trace(f, e.body, tags, seen, depth, pos, env)
            self._trace(f, e.orelse, tags, seen, depth, pos, env)
            return
        if isinstance(e, ast.Call):
            g = self._fn(f, e)
            if g is not None and g.module.name.startswith('resqpy.property'):
                sub = {p: (f, a, env) for p, a in zip(g.params, e.args)}
                sub.update({k.arg: (f, k.value, env) for k in e.keywords if k.arg})
                for n in walk_own(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        self._trace(g, n.value, tags, seen, depth + 1, pos, sub)
                return
            for a in list(e.args) + [k.value for k in e.keywords]:
                for x in ast.walk(a) if isinstance(a, (ast.List, ast.Tuple)) else [a]:
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        tags.add(x.value)
                    elif isinstance(x, (ast.Call, ast.Name, ast.Attribute)):
                        self._trace(f, x, tags, seen, depth, None, env)
            if isinstance(e.func, ast.Attribute):
                tags.add('.' + e.func.attr)
                self._trace(f, e.func.value, tags, seen, depth, None, env)
            return
        if isinstance(e, ast.Attribute):
            self._trace(f, e.value, tags, seen, depth, None, env)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self._trace(f, c, tags, seen, depth, None, env)
