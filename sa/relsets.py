"""Symbolic additions to, and removals from, the model's relation sets (referenced 0, referring 1, soft 2), per function."""

import ast
import re

from .catops import model_class

MIRROR = {0: 1, 1: 0, 2: 2}
ADD = {'add', 'update'}
REM = {'remove', 'discard'}


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise))


def names_in(text):
    return frozenset(re.findall(r'(?<![\w.\'"])[A-Za-z_]\w*(?!\s*[=(])', text)) - {'None', 'True', 'False', 'model', 'self', 'not', 'and', 'or', 'in', 'is'}


class Event:
    __slots__ = ('op', 'key', 'idx', 'val', 'fn', 'line', 'loop', 'guard')

    def __init__(self, op, key, idx, val, fn, line, loop=None, guard=frozenset()):
        self.op, self.key, self.idx, self.val, self.fn, self.line, self.loop, self.guard = op, key, idx, val, fn, line, loop, guard

    def __repr__(self):
        return f'{self.op}([{self.key}][{self.idx}], {self.val})'


class Walk:
    """one function in textual order, with the latest assignment of each local name."""

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.events = []
        self.calls = []         # (call node, env snapshot)
        self.pops = []
        self.tests = []         # ((key, idx), value) membership tests
        self.loops = []
        self.guards = []        # names the current point is conditional on
        self.block(fn.node.body)

    def text(self, e, depth=0):
        """canonical text of an expression, local names replaced by what they stand for."""
        if isinstance(e, ast.Name):
            v = self.env.get(e.id)
            if isinstance(v, ast.AST) and depth < 6:
                return self.text(v, depth + 1)
            if isinstance(v, str):
                return v
            return e.id
        if isinstance(e, ast.Attribute):
            return f'{self.text(e.value, depth)}.{e.attr}'
        if isinstance(e, ast.Call):
            return f"{self.text(e.func, depth)}({', '.join([self.text(a, depth) for a in e.args] + [f'{k.arg}={self.text(k.value, depth)}' for k in e.keywords])})"
        if isinstance(e, ast.Subscript):
            return f'{self.text(e.value, depth)}[{self.text(e.slice, depth)}]'
        return ast.unparse(e)

    def entry(self, e, depth=0):
        """if e denotes uuid_rels_dict[K] (however obtained): text of K."""
        if isinstance(e, ast.Name) and isinstance(self.env.get(e.id), ast.AST) and depth < 6:
            return self.entry(self.env[e.id], depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'uuid_rels_dict':
            return self.text(e.slice)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'pop') and \
                isinstance(e.func.value, ast.Attribute) and e.func.value.attr == 'uuid_rels_dict' and e.args:
            return self.text(e.args[0])
        return None

    def relset(self, e, depth=0):
        """(key text, index) of one of the sets, or None."""
        if isinstance(e, ast.Name) and isinstance(self.env.get(e.id), (ast.AST, tuple)) and depth < 6:
            v = self.env[e.id]
            return v if isinstance(v, tuple) else self.relset(v, depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and type(e.slice.value) is int:
            k = self.entry(e.value)
            if k is not None:
                return (k, e.slice.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'set', 'sorted', 'frozenset') and e.args:
            return self.relset(e.args[0], depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
            return self.relset(e.func.value, depth + 1)
        return None

    def block(self, body):
        depth = len(self.guards)
        for s in body:
            self.stmt(s)
            if isinstance(s, ast.If) and (leaves(s.body) or leaves(s.orelse)):
                self.guards.append(names_in(self.text_deep(s.test)))
        del self.guards[depth:]

    def text_deep(self, e):
        return self.text(e) if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) else \
            ' '.join(self.text(n) if isinstance(n, ast.Name) else '' for n in ast.walk(e))

    def guard(self):
        return frozenset().union(*self.guards) if self.guards else frozenset()

    def scan(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ADD | REM and n.args:
                    rs = self.relset(f.value)
                    if rs is not None:
                        lp = next((l for l in reversed(self.loops) if l[0] == self.text(n.args[0]) or l[0] == rs[0]), None)
                        self.events.append(Event('add' if f.attr in ADD else 'remove', rs[0], rs[1], self.text(n.args[0]), self.fn, n.lineno, lp,
                                                 self.guard()))
                        continue
                if isinstance(f, ast.Attribute) and f.attr == 'pop' and isinstance(f.value, ast.Attribute) and f.value.attr == 'uuid_rels_dict' \
                        and n.args:
                    self.pops.append(self.text(n.args[0]))
                self.calls.append((n, {p: self.text(a) for p, a in enumerate(n.args)},
                                   {k.arg: self.text(k.value) for k in n.keywords if k.arg}))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                rs = self.relset(n.comparators[0])
                if rs is not None:
                    self.tests.append((rs, self.text(n.left)))
                elif isinstance(n.comparators[0], ast.BinOp):
                    for x in ast.walk(n.comparators[0]):
                        rs = self.relset(x) if isinstance(x, (ast.Subscript, ast.Name)) else None
                        if rs is not None:
                            self.tests.append((rs, self.text(n.left)))

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.If):
            self.scan(s.test)
            self.guards.append(names_in(self.text_deep(s.test)))
            self.block(s.body)
            self.block(s.orelse)
            self.guards.pop()
            return
        if isinstance(s, ast.For):
            self.scan(s.iter)
            rs = self.relset(s.iter)
            if isinstance(s.target, ast.Name):
                self.env.pop(s.target.id, None)
                self.loops.append((s.target.id, rs))
            # a tuple of (name, set index) style loops is not interpreted
            self.block(s.body)
            if isinstance(s.target, ast.Name):
                self.loops.pop()
            self.block(s.orelse)
            return
        for f, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                self.scan(v)
            elif isinstance(v, list):
                if v and isinstance(v[0], ast.stmt):
                    self.block(v)
                else:
                    for x in v:
                        if isinstance(x, ast.expr):
                            self.scan(x)
                        elif isinstance(x, ast.ExceptHandler):
                            self.block(x.body)
                        elif isinstance(x, ast.withitem):
                            self.scan(x.context_expr)
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            if isinstance(t, ast.Name):
                if isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and t.id not in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    self.env[t.id] = s.value
                else:
                    self.env.pop(t.id, None)
            elif isinstance(t, (ast.Tuple, ast.List)):
                k = self.entry(s.value)
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Name):
                        self.env.pop(x.id, None)
                        if k is not None:
                            self.env[x.id] = (k, i)
                        elif isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                            self.env[x.id] = f'{self.text(s.value)}<{i}>'
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'uuid_rels_dict' and \
                    isinstance(s.value, ast.Tuple):
                for i, x in enumerate(s.value.elts):
                    if isinstance(x, ast.Set):
                        for y in x.elts:
                            self.events.append(Event('add', self.text(t.slice), i, self.text(y), self.fn, s.lineno, None, self.guard()))


def walks(repo):
    """Walk of every function of the model package."""
    return {f.qual: Walk(f) for f in repo.all_fns() if f.module.name.startswith('resqpy.model') and f.parent is None}


def rename(text, sub):
    """text of an expression in a callee, in terms of the caller."""
    try:
        e = ast.parse(text.replace('<', '[').replace('>', ']'), mode='eval').body
    except SyntaxError:
        return text

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in sub:
                try:
                    return ast.parse(sub[n.id].replace('<', '[').replace('>', ']'), mode='eval').body
                except SyntaxError:
                    return n
            return n
    return ast.unparse(T().visit(e))
