"""Loop-carried data: which variables keep, in a loop, something from one iteration which a later iteration makes use of."""

import ast

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'remove', 'discard', 'pop', 'clear', 'setdefault', 'sort', 'reverse', 'appendleft', 'popleft', 'fill', 'popitem', 'write'}
FRESH = {'list', 'dict', 'set', 'tuple'}


def path(e):
    """'x' or 'self.x' ..., or None."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        p = path(e.value)
        return f'{p}.{e.attr}' if p else None
    return None


def base(e):
    """the variable, or attribute, which a store to an element of it changes."""
    while isinstance(e, (ast.Subscript, ast.Starred)):
        e = e.value
    return path(e)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


def updated_only(fn, p):
    """is the parameter only added to, or stored to, in the function?"""
    fine, n = set(), 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in MUTATORS:
            fine.add(id(x.value.func.value))
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            b = x
            while isinstance(b, ast.Subscript):
                b = b.value
            fine.add(id(b))
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == p:
            n += 1
            if id(x) not in fine:
                return False
    return n > 0


class Loops:
    """carried(fn_node) -> {variable: number of loops over which it is carried}, and where it is read."""

    def __init__(self, node, resolve = None):
        self.node = node
        self.resolve = resolve      # call node -> (function node, index of the first argument) or None
        self.found = {}     # variable -> {loop index: read node}
        self.names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(node) if isinstance(a, ast.arg)}
        for i, loop in enumerate(l for l in ast.walk(node) if isinstance(l, (ast.For, ast.While, ast.AsyncFor))):
            self.loop(i, loop)

    # ---- what a loop body may leave behind
    def gen(self, loop):
        out = set()
        for s in loop.body:
            for x in self.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                    b = base(x)
                    if b is not None:
                        out.add(b)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    b = base(x.func.value)
                    if b is not None:
                        out.add(b)
        return out

    @staticmethod
    def walk(n):
        """nodes within n, comprehension variables, nested functions and lambdas left out."""
        todo = [n]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            yield x
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for y in ast.walk(x):
                    if isinstance(y, (ast.Name, ast.Attribute)) and (path(y) or '').split('.')[0] not in bound:
                        yield y
                continue
            todo.extend(ast.iter_child_nodes(x))

    def loop(self, i, loop):
        self.i = i
        g = self.gen(loop)
        # what the loop itself counts by
        own = {path(x) for x in ast.walk(loop.test if isinstance(loop, ast.While) else loop.target) if isinstance(x, (ast.Name, ast.Attribute))}
        g -= own
        if g:
            self.block(loop.body, frozenset((v, None) for v in g))

    def read(self, e, st):
        if e is None:
            return
        stale = {v for v, _ in st}
        if not stale:
            return
        skip = set()
        if self.resolve is not None:
            for x in self.walk(e):
                if isinstance(x, ast.Call) and any(path(a) in stale for a in list(x.args) + [k.value for k in x.keywords]):
                    # what a function of the library is given only to add to is updated
                    r = self.resolve(x)
                    if r is not None:
                        ps = [a.arg for a in r[0].args.posonlyargs + r[0].args.args]
                        for p, a in list(zip(ps[r[1]:], x.args)) + [(k.arg, k.value) for k in x.keywords if k.arg]:
                            if path(a) in stale and updated_only(r[0], p):
                                skip.add(id(a))
        for x in self.walk(e):
            if id(x) in skip:
                continue
            v = path(x) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) else None
            if v in stale:
                self.found.setdefault(v, {}).setdefault(self.i, x)

    def kill(self, t, st):
        if isinstance(t, (ast.Name, ast.Attribute)):
            p = path(t)
            return frozenset(x for x in st if x[0] != p)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.kill(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.kill(t.value, st)
        if isinstance(t, ast.Subscript):
            self.read(t.slice, st)
        return st

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a | b

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st
        if isinstance(s, ast.Assign):
            v = s.value
            own = {path(t) for t in s.targets if isinstance(t, (ast.Name, ast.Attribute))} - {None}
            if own and isinstance(v, ast.BinOp):
                # x = x + ...: an update
                for side in (v.left, v.right):
                    if not (path(side) in own):
                        self.read(side, st)
                if any(path(z) in own for z in (v.left, v.right)):
                    return st
            elif own and isinstance(v, ast.Call) and any(path(a) in own for a in v.args):
                for a in [v.func] + v.args + [k.value for k in v.keywords]:
                    if not (path(a) in own):
                        self.read(a, st)
                return st
            else:
                self.read(v, st)
            for t in s.targets:
                st = self.kill(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.read(s.value, st)
            if isinstance(s.target, ast.Subscript):
                self.read(s.target.slice, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.read(s.value, st)
            return self.kill(s.target, st) if s.value is not None else st
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in MUTATORS and path(v.func.value):
                for a in v.args + [k.value for k in v.keywords]:
                    self.read(a, st)
                return self.kill(v.func.value, st) if v.func.attr == 'clear' else st
            self.read(v, st)
            return st
        if isinstance(s, ast.If):
            self.read(s.test, st)
            t, pol = s.test, True
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, pol = t.operand, not pol
            t = ast.unparse(t)
            # where the loop ends with a result or an error, no later item is affected
            a = None if ends(s.body) else self.block(s.body, frozenset(x for x in st if x[1] != (t, not pol)))
            b = None if ends(s.orelse) else self.block(s.orelse, frozenset(x for x in st if x[1] != (t, pol)))
            if a is None or b is None:
                return self.join(a, b)
            va, vb = {v for v, _ in a}, {v for v, _ in b}
            # what one branch has renewed is stale only where the other was taken
            return frozenset(x if x[0] in vb else (x[0], x[1] or (t, pol)) for x in a) | frozenset(x if x[0] in va else (x[0], x[1] or (t, not pol)) for x in b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.read(s.iter, st)
            inner = self.kill(s.target, st)
            out = self.block(s.body, inner)
            rest = self.block(s.orelse, st)
            return self.join(self.join(st, out), rest)
        if isinstance(s, ast.While):
            self.read(s.test, st)
            out = self.block(s.body, st)
            return self.join(st, out)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.read(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.kill(it.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, st)
            a2 = self.block(s.orelse, a) if a is not None else None
            for h in s.handlers:
                a2 = self.join(a2, self.block(h.body, st))
            if s.finalbody:
                return self.block(s.finalbody, a2 if a2 is not None else st)
            return a2
        if isinstance(s, ast.Delete):
            for t in s.targets:
                st = self.kill(t, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            # what is returned after the loop ends is the outcome of the loop as a whole
            if isinstance(s, ast.Raise) or isinstance(s, ast.Return):
                pass
            return None
        if isinstance(s, ast.Assert):
            self.read(s.test, st)
            return st
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.read(x, st)
        return st


def carried(node, resolve = None):
    l = Loops(node, resolve)
    return {v: len(d) for v, d in l.found.items()}, l
