"""Which parameters of a function flow into which arguments of the calls it makes (helpers absent from a reference list are seen through)."""

import ast

from .interp import MODEL
from .repo import local_names, walk_own

CONV = {'str', 'int', 'float', 'bool', 'list', 'tuple', 'set', 'array', 'asarray', 'copy', 'deepcopy', 'uuid_from_string', 'string_from_uuid', 'upper',
        'lower', 'strip', 'dict', 'uuid_as_int'}
MUTATORS = {'append', 'extend', 'insert', 'update', 'add', 'setdefault'}
COMMON = {'append', 'extend', 'update', 'copy', 'index', 'insert', 'remove', 'replace', 'values', 'format', 'reshape', 'astype', 'flatten', 'isnull',
          'groupby', 'is_alive', 'strip', 'startswith', 'endswith', 'transpose', 'squeeze'}


class Resolver:
    """call expression -> (Fn, bound_self)."""

    def __init__(self, repo):
        from checks.c19 import Ctx
        self.repo = repo
        self.cx = Ctx(repo)
        self.model = repo.cls(MODEL)
        self.memo = {}
        byname = {}
        for c in repo.classes.values():
            for n, m in c.methods.items():
                byname.setdefault(n, set()).add(m.qual)
        fnames = {}
        for f in repo.all_fns():
            fnames.setdefault(f.name, set()).add(f.qual)
        self.unique = {n: next(iter(s)) for n, s in byname.items()
                       if len(s) == 1 and n not in COMMON and len(n) > 5 and not n.startswith('__')}

    def prep(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        from checks.c19 import local_types, scope_names
        names = scope_names(self.repo, f)
        types = local_types(self.repo, f)
        selfname = f.params[0] if f.cls is not None and f.kind == 'method' and f.params else None
        if f.parent is not None:
            p = f
            while p.parent is not None:
                p = p.parent
            if p.cls is not None and p.kind == 'method' and p.params and p.params[0] not in local_names(f):
                selfname = p.params[0]
        rebound = {x.id for x in walk_own(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.memo[f.qual] = (names, types, selfname, rebound)
        return self.memo[f.qual]

    def callee(self, f, call):
        from checks.c19 import _callee
        names, types, selfname, rebound = self.prep(f)
        r = _callee(self.repo, self.cx, f, call, names, types, selfname, self.model, rebound)
        if r is None and isinstance(call.func, ast.Attribute) and call.func.attr in self.unique:
            g = self.repo.fns.get(self.unique[call.func.attr])
            if g is not None and not g.is_prop:
                # a method found by its name alone: only on values which are not modules
                b = call.func.value
                while isinstance(b, ast.Attribute):
                    b = b.value
                if not (isinstance(b, ast.Name) and b.id not in names):
                    return (g, g.kind != 'static')
        return r


def key_of(e):
    """a name or a dotted attribute chain, as text."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = key_of(e.value)
        return None if b is None else f'{b}.{e.attr}'
    return None


class Flow:

    def __init__(self, fn, repo):
        self.fn = fn
        self.params = list(fn.params)
        a = fn.node.args
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.vararg = a.vararg.arg if a.vararg else None
        if self.kwarg:
            self.params.append(self.kwarg)
        if self.vararg:
            self.params.append(self.vararg)
        self.anyf = {p: {p} for p in self.params}
        self.puref = {p: {p} for p in self.params}
        self.kill = {}
        self.assigns = []       # (target key, value expr)
        self._collect()
        self._fix()

    def _collect(self):
        top = set(map(id, self.fn.node.body))
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self._bind(n.target, n.value, False)
            elif isinstance(n, ast.NamedExpr):
                self._bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                self._bind(n.target, n.iter, False)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self._bind(n.optional_vars, n.context_expr, False)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                for x in list(n.args) + [k.value for k in n.keywords]:
                    self._bind(n.func.value, x, False)
            elif isinstance(n, ast.FunctionDef) and n is not self.fn.node:
                # nested function: its parameters take what its calls give
                for m in ast.walk(self.fn.node):
                    if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == n.name:
                        ps = [p.arg for p in n.args.posonlyargs + n.args.args]
                        for p, x in zip(ps, m.args):
                            self._bind(ast.Name(p, ast.Store()), x)
                        for k in m.keywords:
                            if k.arg:
                                self._bind(ast.Name(k.arg, ast.Store()), k.value)
        for s in self.fn.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else []):
                        if isinstance(x, ast.Name) and x.id in self.fn.params and x.id not in self.kill:
                            if not any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(s.value)):
                                self.kill[x.id] = s.end_lineno
        _ = top

    def _bind(self, t, v, pure=True):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self._bind(a, b, pure)
            else:
                for a in t.elts:
                    self._bind(a, v, False)
            return
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Subscript):
            self._bind(t.value, v, False)
            return
        k = key_of(t)
        if k is not None:
            self.assigns.append((k, v, pure))
            if '.' in k and isinstance(t, ast.Attribute):
                # whatever is put in an attribute of an object also reaches uses of the object
                self.assigns.append((k.split('.')[0], v, False)) if k.split('.')[0] not in self.fn.params[:1] else None

    def _fix(self):
        for _ in range(12):
            ch = False
            for k, v, pure in self.assigns:
                a = self.any(v)
                if not a <= self.anyf.setdefault(k, set()):
                    self.anyf[k] |= a
                    ch = True
                if pure:
                    p = self.pure(v)
                    if not p <= self.puref.setdefault(k, set()):
                        self.puref[k] |= p
                        ch = True
            if not ch:
                break

    def _entry(self, name, node, s):
        """drop the entry value of a parameter which has been overwritten at this point."""
        if name in self.kill and getattr(node, 'lineno', 0) > self.kill[name]:
            return s - {name} | (self._after(name) if name in s else set())
        return s

    def _after(self, name):
        out = set()
        for k, v, _ in self.assigns:
            if k == name and not any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(v)):
                out |= {x for x in self.any(v) if x != name}
        return out

    def any(self, e):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute):
                k = key_of(n)
                if k is not None and k in self.anyf:
                    out |= self.anyf[k]
                out.add('@' + n.attr)
            elif isinstance(n, ast.Name):
                s = self.anyf.get(n.id)
                if s:
                    out |= self._entry(n.id, n, s)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars'):
                out |= set(self.params)
        return out

    def pure(self, e):
        if isinstance(e, ast.Name):
            return self._entry(e.id, e, self.puref.get(e.id, set()))
        if isinstance(e, ast.Attribute):
            k = key_of(e)
            return {'@' + e.attr} | (self.puref.get(k, set()) if k is not None else set())
        if isinstance(e, ast.IfExp):
            return self.pure(e.body) | self.pure(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.pure(x) for x in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.pure(e.operand)
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if nm in CONV:
                if e.args:
                    return self.pure(e.args[0])
                if isinstance(e.func, ast.Attribute):
                    return self.pure(e.func.value)
        return set()


def overwrites(fn, flow):
    """{parameter: line of the first place where its value may be replaced by something unrelated, its own value not being known there}"""
    out = {}

    def block(body, c):
        c = set(c)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.If):
                block(s.body, c | pins(s.test, True, fn, flow))
                block(s.orelse, c | pins(s.test, False, fn, flow))
                for b, pol in ((s.body, False), (s.orelse, True)):
                    if b and isinstance(b[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)):
                        c |= pins(s.test, pol, fn, flow)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name) and t.id in fn.params and t.id not in c:
                        if isinstance(s.value, ast.IfExp):
                            alts = [(s.value.body, pins(s.value.test, True, fn, flow)), (s.value.orelse, pins(s.value.test, False, fn, flow))]
                        else:
                            alts = [(s.value, set())]
                        for v, k in alts:
                            if t.id not in k and t.id not in flow.any(v):
                                out.setdefault(t.id, s.end_lineno)
            else:
                for b in ('body', 'orelse', 'finalbody'):
                    if getattr(s, b, None) and isinstance(getattr(s, b), list):
                        block(getattr(s, b), c)
                for h in getattr(s, 'handlers', []):
                    block(h.body, c)

    block(fn.node.body, set())
    return out


def _is_bool(fn, p):
    d = fn.default_of(p)
    return isinstance(d, ast.Constant) and isinstance(d.value, bool)


def pins(e, pol, fn, flow):
    """parameters whose value is as good as known when condition e is pol."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return pins(e.operand, not pol, fn, flow)
    if isinstance(e, ast.BoolOp):
        if isinstance(e.op, ast.And) == pol:
            return set().union(*[pins(x, pol, fn, flow) for x in e.values])
        return set.intersection(*[pins(x, pol, fn, flow) for x in e.values])
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        for a, b in ((e.left, e.comparators[0]), (e.comparators[0], e.left)):
            if isinstance(b, ast.Constant) or (isinstance(b, ast.UnaryOp) and isinstance(b.operand, ast.Constant)):
                eq = isinstance(e.ops[0], (ast.Is, ast.Eq))
                if (eq or isinstance(e.ops[0], (ast.IsNot, ast.NotEq))) and eq == pol:
                    return flow.pure(a)
        return set()
    if isinstance(e, (ast.Name, ast.Attribute)):
        ps = flow.pure(e)
        return ps if not pol else {p for p in ps if p[0] != '@' and _is_bool(fn, p)}
    return set()


def ctrl_map(fn, flow):
    """id of each call -> parameters whose value is known wherever it is made (from enclosing or earlier leaving conditions)."""
    out = {}

    def P(e, pol):
        return pins(e, pol, fn, flow)

    def block(body, c):
        c = set(c)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                block(s.body, c)
                continue
            stmt(s, c)
            if isinstance(s, ast.If):
                for b, pol in ((s.body, False), (s.orelse, True)):
                    if b and isinstance(b[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)):
                        c |= P(s.test, pol)
        return c

    def expr(e, c):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                out.setdefault(id(n), set()).update(c)
            if isinstance(n, ast.IfExp):
                for b, pol in ((n.body, True), (n.orelse, False)):
                    t = P(n.test, pol)
                    for m in ast.walk(b):
                        if isinstance(m, ast.Call):
                            out.setdefault(id(m), set()).update(t)
            elif isinstance(n, ast.BoolOp):
                for i in range(1, len(n.values)):
                    t = P(n.values[i - 1], isinstance(n.op, ast.And))
                    for m in ast.walk(n.values[i]):
                        if isinstance(m, ast.Call):
                            out.setdefault(id(m), set()).update(t)

    def stmt(s, c):
        if isinstance(s, ast.If):
            expr(s.test, c)
            block(s.body, c | P(s.test, True))
            block(s.orelse, c | P(s.test, False))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            expr(s.iter, c)
            block(s.body, c)
            block(s.orelse, c)
        elif isinstance(s, ast.While):
            expr(s.test, c)
            block(s.body, c)
            block(s.orelse, c)
        elif isinstance(s, ast.Try):
            block(s.body, c)
            for h in s.handlers:
                block(h.body, c)
            block(s.orelse, c)
            block(s.finalbody, c)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                expr(i.context_expr, c)
            block(s.body, c)
        elif isinstance(s, ast.Match):
            expr(s.subject, c)
            for k in s.cases:
                block(k.body, c | flow.any(s.subject))
        else:
            expr(s, c)

    block(fn.node.body, set())
    return out


class Site:
    __slots__ = ('g', 'args', 'pure', 'ctrl', 'opaque', 'where', 'given', 'cls')

    def __init__(self, g, args, pure, ctrl, opaque, where, given, cls=None):
        self.g, self.args, self.pure, self.ctrl, self.opaque, self.where, self.given, self.cls = g, args, pure, ctrl, opaque, where, given, cls


def bind_args(g, call, bound, flow):
    """{parameter of g: expression} and whether some of the arguments are not visible."""
    a = g.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    m, opaque = {}, []
    for i, x in enumerate(call.args):
        if isinstance(x, ast.Starred):
            opaque.append(x.value)
            break
        if i < len(pos):
            m[pos[i]] = x
        elif a.vararg:
            m.setdefault(a.vararg.arg, x)
    for k in call.keywords:
        if k.arg is None:
            opaque.append(k.value)
        else:
            m[k.arg] = k.value
    return m, opaque


class Flows:
    """call sites of every function, with parameter flows."""

    def __init__(self, repo):
        self.repo = repo
        self.res = Resolver(repo)
        self.memo = {}
        self.flows = {}

    def flow(self, f):
        if f.qual not in self.flows:
            self.flows[f.qual] = Flow(f, self.repo)
        return self.flows[f.qual]

    def direct(self, f):
        """sites of f itself, nested functions included."""
        if f.qual in self.memo:
            return self.memo[f.qual]
        fl = self.flow(f)
        cm = ctrl_map(f, fl)
        out = []
        nested = {n.name: n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            r = self.res.callee(f, n)
            if r is None:
                continue
            g, bound = r
            if g.parent is not None or g.name in nested:
                continue
            m, opq = bind_args(g, n, bound, fl)
            # a dictionary of keyword arguments made in the function itself
            rest = []
            for o in opq:
                d = dict_of(f, o)
                if d is None:
                    rest.append(o)
                else:
                    for k, v in d:
                        m.setdefault(k, v)
            args = {q: fl.any(e) for q, e in m.items()}
            pure = {q: fl.pure(e) for q, e in m.items()}
            opaque = set()
            for o in rest:
                opaque |= fl.any(o) | {'*'}
            out.append(Site(g, args, pure, cm.get(id(n), set()), opaque, f.loc(n), set(m)))
        self.memo[f.qual] = out
        return out

    def sites(self, f, known, depth=0):
        """sites of f, with calls of functions not in `known` replaced by the calls they make."""
        out = []
        for s in self.direct(f):
            if s.g.qual in known or depth > 3 or s.g.qual == f.qual:
                out.append(s)
                continue
            for t in self.sites(s.g, known, depth + 1):
                def tr(ps, s=s):
                    o = set()
                    for p in ps:
                        if p == '*' or p[0] == '@':
                            o.add(p)
                        o |= s.args.get(p, set())
                        if p not in s.args:
                            o |= s.opaque
                    return o
                out.append(Site(t.g, {q: tr(x) for q, x in t.args.items()}, {q: tr(x) for q, x in t.pure.items()}, tr(t.ctrl) | s.ctrl,
                                tr(t.opaque), s.where, t.given))
        return out


def dict_of(f, e):
    """[(key, value expr)] of a dictionary literal, or one built only from literals in the function."""
    if isinstance(e, ast.Dict):
        if all(isinstance(k, ast.Constant) for k in e.keys):
            return [(k.value, v) for k, v in zip(e.keys, e.values)]
        return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and not e.args and all(k.arg for k in e.keywords):
        return [(k.arg, k.value) for k in e.keywords]
    if isinstance(e, ast.Name) and e.id not in f.params:
        out, ok = [], False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        d = dict_of(f, n.value) if not isinstance(n.value, ast.Name) else None
                        if d is None:
                            return None
                        ok = True
                        out += d
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id:
                        if not isinstance(t.slice, ast.Constant):
                            return None
                        out.append((t.slice.value, n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id \
                    and n.func.attr == 'update':
                if n.args:
                    return None
                out += [(k.arg, k.value) for k in n.keywords if k.arg]
        return out if ok else None
    return None
