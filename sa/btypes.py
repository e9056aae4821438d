"""Local values of builtin types, and operations which such a value does not have."""

import ast

TYPES = {'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'str': str, 'int': int, 'float': float, 'bool': bool}
CALLS = {'len': 'int', 'int': 'int', 'float': 'float', 'str': 'str', 'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple', 'sorted': 'list', 'bool': 'bool', 'id': 'int', 'ord': 'int',
         'range': 'range', 'repr': 'str', 'isinstance': 'bool', 'hasattr': 'bool'}
SCALAR = {'int', 'float', 'bool'}


def own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


class Local:

    def __init__(self, f):
        self.f = f
        self.defs = {}
        outer = set()
        for x in own(f.node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                outer |= set(x.names)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    self.bind(t, x.value)
            elif isinstance(x, ast.AnnAssign) and x.value is not None:
                self.bind(x.target, x.value)
            elif isinstance(x, ast.AugAssign):
                if isinstance(x.target, ast.Name):
                    self.defs.setdefault(x.target.id, []).append(ast.BinOp(ast.Name(x.target.id, ast.Load()), x.op, x.value))
            elif isinstance(x, (ast.For, ast.comprehension)):
                self.bind(x.target, None)
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                self.bind(x.optional_vars, None)
            elif isinstance(x, ast.NamedExpr):
                self.bind(x.target, x.value)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.defs.setdefault(x.name, []).append(None)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    self.defs.setdefault((a.asname or a.name).split('.')[0], []).append(None)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.defs.setdefault(x.name, []).append(None)
                for y in ast.walk(x):
                    if isinstance(y, ast.Nonlocal):
                        outer |= set(y.names)
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z is not None]:
            self.defs.setdefault(p.arg, []).append(None)
        for n in outer:
            self.defs.setdefault(n, []).append(None)
        self.busy = set()
        self.held = {}
        for x in own(f.node):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(x, fld, None)
                if isinstance(b, list):
                    self.block(b)
        self.block(f.node.body)

    def block(self, stmts):
        """types of attributes used in the statement following the one which assigns them."""
        for s, nx in zip(stmts, stmts[1:]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name):
                if not isinstance(nx, (ast.Return, ast.Expr, ast.Assign)):
                    continue
                key = ast.dump(s.targets[0].value), s.targets[0].attr
                for y in ast.walk(nx):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and (ast.dump(y.value), y.attr) == key:
                        self.held[id(y)] = s.value

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x.value if isinstance(x, ast.Starred) else x, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None)

    def of(self, e):
        """set of possible builtin types, or None when not all known."""
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            t = type(e.value).__name__
            return {t} if t in TYPES else {'none'} if e.value is None else None
        if isinstance(e, (ast.List, ast.ListComp)):
            return {'list'}
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return {'dict'}
        if isinstance(e, (ast.Set, ast.SetComp)):
            return {'set'}
        if isinstance(e, ast.Tuple):
            return {'tuple'}
        if isinstance(e, ast.JoinedStr):
            return {'str'}
        if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
            return {'bool'}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {'bool'}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in CALLS and e.func.id not in self.defs:
            return {CALLS[e.func.id]}
        if isinstance(e, ast.BinOp):
            l, r = self.of(e.left), self.of(e.right)
            if l and r and l <= SCALAR and r <= SCALAR:
                return {'int', 'float'} if l | r != {'int'} or isinstance(e.op, ast.Div) else {'int'}
            if l and r and l == r and isinstance(e.op, ast.Add):
                return l
            return None
        if isinstance(e, ast.IfExp):
            l, r = self.of(e.body), self.of(e.orelse)
            return l | r if l and r else None
        if isinstance(e, ast.Attribute) and id(e) in self.held:
            return self.of(self.held[id(e)])
        if isinstance(e, ast.Name):
            d = self.defs.get(e.id)
            if not d or e.id in self.busy:
                return set() if e.id in self.busy else None
            self.busy.add(e.id)
            out = set()
            for v in d:
                t = self.of(v)
                if t is None:
                    out = None
                    break
                out |= t
            self.busy.discard(e.id)
            return out or None
        return None

    def faults(self):
        """(node, text) of operations which the value's type does not have; and the number of operations judged."""
        n = 0
        out = []

        def known(e):
            t = self.of(e)
            return t - {'none'} if t else None

        for x in own(self.f.node):
            its = [x.iter] if isinstance(x, (ast.For, ast.comprehension)) else []
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('enumerate', 'list', 'tuple', 'set', 'sorted', 'any', 'all', 'reversed', 'zip') and x.args and x.func.id not in self.defs:
                its = [x.args[0]]
            for e in its:
                t = known(e)
                if t:
                    n += 1
                    if t <= SCALAR:
                        out.append((x if hasattr(x, 'lineno') else e, f'{ast.unparse(e)} is a number and cannot be iterated over'))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and x.args:
                t = known(x.args[0])
                if t:
                    n += 1
                    if t <= SCALAR:
                        out.append((x, f'{ast.unparse(x.args[0])} is a number and has no length'))
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                t = known(x.value)
                if t and t <= set(TYPES):
                    n += 1
                    if not any(hasattr(TYPES[k], x.attr) for k in t):
                        out.append((x, f'{ast.unparse(x.value)} is a {" or ".join(sorted(t))}, which has no {x.attr}'))
            if isinstance(x, ast.Subscript):
                if isinstance(x.value, ast.Attribute):
                    t = known(x.value.value)
                    if t and t <= set(TYPES) and all(callable(getattr(TYPES[k], x.value.attr, None)) for k in t):
                        n += 1
                        out.append((x, f'{ast.unparse(x.value)} is a method, not something to be indexed'))
                t = known(x.value)
                if t and t <= set(TYPES):
                    n += 1
                    if t <= SCALAR or t == {'set'}:
                        out.append((x, f'{ast.unparse(x.value)} is a {" or ".join(sorted(t))} and cannot be indexed'))
                    elif isinstance(x.ctx, (ast.Store, ast.Del)) and t <= {'tuple', 'str'}:
                        out.append((x, f'{ast.unparse(x.value)} is a {" or ".join(sorted(t))}, of which no item can be changed'))
            if isinstance(x, ast.Call):
                t = known(x.func)
                if t and t <= set(TYPES):
                    out.append((x, f'{ast.unparse(x.func)} is a {" or ".join(sorted(t))} and cannot be called'))
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                l, r = known(x.left), known(x.right)
                if l and r and l <= set(TYPES) and r <= set(TYPES):
                    n += 1
                    if not (l & r or l <= SCALAR | {'int'} and r <= SCALAR):
                        out.append((x, f'{ast.unparse(x.left)[:40]} and {ast.unparse(x.right)[:40]} ({" or ".join(sorted(l))}, {" or ".join(sorted(r))}) cannot be added'))
        return out, n
