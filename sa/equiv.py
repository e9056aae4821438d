"""Abstract evaluation of the equivalence tests of classes: over what is compared, not over values.

The two objects are symbolic; what is read from either is a path ('title', 'ranks[]', 'root|citation_title_for_node'). A scenario says which one item (path) is different, or
present on one side only, everything else being the same; conditions it does not settle are followed both ways. The result is the set of outcomes: True, False, None, raise, other.
"""

import ast

from .repo import Fn

NONE = ('c', None)
SAMEFN = {'isclose', 'allclose', 'matching_uuids', 'array_equal', 'equal'}
WRAP = {'set', 'list', 'tuple', 'sorted', 'str', 'bool', 'float', 'int', 'frozenset', 'dict'}


class Ret(Exception):
    pass


class Stop(Exception):
    pass


def sub(p, q):
    """is q something within, or derived from, p?"""
    return q != p and q.startswith(p) and q[len(p)] in '.[|'


class Eval:

    def __init__(self, repo, cls, fn, scen=None, item=None):
        """scen: 'equal', 'differ', 'self only', 'other only', 'none' (other is None), 'same object'."""
        self.repo, self.cls, self.fn, self.scen, self.item = repo, cls, fn, scen, item
        self.atoms = set()
        self.results = set()

    # ---- drive: all combinations of undecided conditions
    def run(self, limit=3000):
        todo = [[]]
        n = 0
        while todo and n < limit:
            n += 1
            self.choices = todo.pop()
            self.pos = 0
            self.facts = {}
            self.depth = 0
            self.open = []
            ps = self.fn.params
            env = {ps[0]: ('s', '')}
            if len(ps) > 1:
                env[ps[1]] = NONE if self.scen == 'none' else ('s', '') if self.scen == 'same object' else ('o', '')
            for p in ps[2:]:
                d = self.fn.default_of(p)
                env[p] = self.ev(d, {}, self.fn, self.cls) if d is not None else ('u',)
            try:
                r = self.call(self.fn, env, self.cls)
                b = self.truthval(r)
                self.results.add('None' if r == NONE else 'T' if b is True else 'F' if b is False else '?')
            except Stop:
                self.results.add('raise')
            for i in range(len(self.choices), self.pos):
                todo.append(self.trail[:i] + [False])
        return self.results

    def choose(self, key=None):
        if key is not None and key in self.facts:
            return self.facts[key]
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = True
        if self.pos == 0:
            self.trail = []
        self.trail = self.trail[:self.pos] + [v]
        self.pos += 1
        if key is not None:
            self.facts[key] = v
        return v

    # ---- knowledge
    def present(self, v):
        """is the item at the path there (not None, not empty)?"""
        side, p = v[0], v[1]
        if p.endswith('|len'):
            p = p[:-4]
        if p == '':
            return True
        if self.item is not None and (p == self.item or sub(p, self.item)):
            if p == self.item and self.scen in ('self only', 'other only'):
                return (side == 's') == (self.scen == 'self only')
            return True
        if self.item is not None and sub(self.item, p) and self.scen in ('self only', 'other only'):
            return (side == 's') == (self.scen == 'self only')
        return self.choose(('present', p))

    def same(self, p):
        self.atoms.add(p)
        if self.scen in ('equal', 'same object') or self.item is None:
            if p.split('|')[0].split('.')[-1] == 'uuid' and p == 'uuid' and self.scen == 'equal':
                return False
            return True
        if p == 'uuid':
            return False
        if p == self.item or sub(p, self.item):
            return False
        if sub(self.item, p):
            return self.choose(('same', p))
        return True

    def truthval(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 'list':
            return bool(v[1])
        if v[0] in 'so':
            return self.present(v)
        return None

    def truth(self, v):
        b = self.truthval(v)
        return self.choose() if b is None else b

    # ---- functions
    def call(self, f, env, cls):
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            return ('u',)
        try:
            self.block(f.node.body, env, f, cls)
            return NONE
        except Ret as r:
            return r.args[0]
        finally:
            self.depth -= 1

    def block(self, body, env, f, cls):
        for st in body:
            self.stmt(st, env, f, cls)

    def stmt(self, st, env, f, cls):
        ev = lambda e: self.ev(e, env, f, cls)
        if isinstance(st, ast.Return):
            raise Ret(NONE if st.value is None else ev(st.value))
        if isinstance(st, ast.If):
            self.block(st.body if self.truth(ev(st.test)) else st.orelse, env, f, cls)
        elif isinstance(st, ast.Assign):
            v = ev(st.value)
            for t in st.targets:
                self.assign(t, v, env)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.assign(st.target, ev(st.value), env)
        elif isinstance(st, ast.AugAssign):
            ev(st.value)
            if isinstance(st.target, ast.Name):
                cur = env.get(st.target.id, ('u',))
                v = ev(st.value)
                if isinstance(st.op, (ast.BitAnd, ast.BitOr)):
                    a, b = self.truth(cur), self.truth(v)
                    env[st.target.id] = ('c', a and b if isinstance(st.op, ast.BitAnd) else a or b)
                else:
                    env[st.target.id] = ('u',)
        elif isinstance(st, ast.Expr):
            ev(st.value)
        elif isinstance(st, ast.Assert):
            if not self.truth(ev(st.test)):
                raise Stop()
        elif isinstance(st, ast.Raise):
            raise Stop()
        elif isinstance(st, (ast.For, ast.While)):
            els = self.elements(ev(st.iter)) if isinstance(st, ast.For) else [('u',)]
            for e in els:
                if isinstance(st, ast.For):
                    self.assign(st.target, e, env)
                elif not self.truth(ev(st.test)):
                    break
                try:
                    self.block(st.body, env, f, cls)
                except _Loop as x:
                    if x.args[0] == 'break':
                        return
            self.block(st.orelse, env, f, cls)
        elif isinstance(st, (ast.Break, ast.Continue)):
            raise _Loop('break' if isinstance(st, ast.Break) else 'continue')
        elif isinstance(st, ast.With):
            self.block(st.body, env, f, cls)
        elif isinstance(st, ast.Try):
            self.block(st.body, env, f, cls)
            self.block(st.finalbody, env, f, cls)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, self.item_of(v, i), env)

    def elements(self, v):
        """abstract elements a loop over v goes through."""
        if v[0] == 'list':
            return v[1]
        if v[0] in 'so':
            return [(v[0], v[1] + '[]')]
        return [('u',)]

    def item_of(self, v, i):
        if v[0] == 'list':
            return v[1][i] if isinstance(i, int) and -len(v[1]) <= i < len(v[1]) else ('u',)
        if v[0] in 'so':
            return (v[0], f'{v[1]}[{i if isinstance(i, (int, str)) else ""}]')
        return ('u',)

    # ---- expressions
    def attr(self, v, name):
        if v == NONE:
            raise Stop()
        if v[0] in 'so':
            return (v[0], f'{v[1]}.{name}' if v[1] else name)
        return ('u',)

    def eq(self, a, b):
        """True, False, or None when not known."""
        if a[0] == 'c' and b[0] == 'c':
            return a[1] == b[1]
        if a[0] in 'so' and b[0] in 'so':
            if a[0] == b[0]:
                return True if a[1] == b[1] else None
            if a[1] == b[1]:
                if self.scen in ('self only', 'other only') and (a[1] == self.item or sub(self.item or '?', a[1])):
                    self.atoms.add(a[1])
                    return False
                return self.same(a[1])
            return None
        if a == NONE or b == NONE:
            x = b if a == NONE else a
            if x[0] in 'so':
                return not self.present(x)
            return None
        for x, y in ((a, b), (b, a)):
            # a quantity converted to the units of the other
            if x[0] in 'so' and y[0] == 'f' and str(y[1]).startswith('convert') and y[2] and y[2][0][0] in 'so' and y[2][0][0] != x[0] and y[2][0][1] == x[1]:
                return self.eq(x, y[2][0])
        if a[0] == 'list' and b[0] == 'list' and len(a[1]) == len(b[1]):
            rs = [self.eq(x, y) for x, y in zip(a[1], b[1])]
            return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
        if a[0] == 'f' and b[0] == 'f' and a[1] == b[1] and len(a[2]) == len(b[2]):
            rs = [self.eq(x, y) for x, y in zip(a[2], b[2])]
            return None if any(r is not True for r in rs) else True
        return None

    def boo(self, b):
        return ('c', b) if b is not None else ('c', self.choose())

    def ev(self, e, env, f, cls):
        k = lambda x: self.ev(x, env, f, cls)
        if isinstance(e, ast.Constant):
            return ('c', e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id, ('u',))
        if isinstance(e, ast.Attribute):
            return self.attr(k(e.value), e.attr)
        if isinstance(e, ast.Subscript):
            v, i = k(e.value), k(e.slice) if not isinstance(e.slice, ast.Slice) else ('u',)
            return self.item_of(v, i[1] if i[0] == 'c' else '')
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return ('list', [k(x) for x in e.elts])
        if isinstance(e, ast.UnaryOp):
            v = k(e.operand)
            return ('c', not self.truth(v)) if isinstance(e.op, ast.Not) else ('f', 'neg', [v])
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = k(x)
                t = self.truth(v)
                if t != isinstance(e.op, ast.And):
                    return v if v[0] != 'u' else ('c', t)
            return v if v[0] != 'u' else ('c', t)
        if isinstance(e, ast.IfExp):
            return k(e.body) if self.truth(k(e.test)) else k(e.orelse)
        if isinstance(e, ast.NamedExpr):
            v = k(e.value)
            self.assign(e.target, v, env)
            return v
        if isinstance(e, ast.Compare):
            l = k(e.left)
            out = True
            for op, c in zip(e.ops, e.comparators):
                r = k(c)
                b = self.compare(op, l, r)
                if not b:
                    return ('c', False)
                l = r
            return ('c', out)
        if isinstance(e, ast.BinOp):
            a, b = k(e.left), k(e.right)
            if isinstance(e.op, (ast.BitAnd, ast.BitOr)) and a[0] == 'c' and b[0] == 'c':
                return ('c', bool(a[1]) and bool(b[1]) if isinstance(e.op, ast.BitAnd) else bool(a[1]) or bool(b[1]))
            return ('f', type(e.op).__name__, [a, b])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            self.comp(e.generators, 0, dict(env), f, cls, lambda en: out.append(self.ev(e.elt, en, f, cls)))
            return ('list', out)
        if isinstance(e, ast.Call):
            return self.ev_call(e, env, f, cls)
        if isinstance(e, ast.Lambda):
            return ('lambda', e, env, f)
        return ('u',)

    def comp(self, gens, i, env, f, cls, emit):
        if i == len(gens):
            emit(env)
            return
        for x in self.elements(self.ev(gens[i].iter, env, f, cls)):
            self.assign(gens[i].target, x, env)
            if all(self.truth(self.ev(c, env, f, cls)) for c in gens[i].ifs):
                self.comp(gens, i + 1, env, f, cls, emit)

    def compare(self, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if l[0] in 'so' and r[0] in 'so' and not l[1] and not r[1]:
                b = l[0] == r[0]
            elif l == NONE or r == NONE or (l[0] == 'c' and r[0] == 'c'):
                b = self.eq(l, r)
                if l[0] in 'so' and not l[1] or r[0] in 'so' and not r[1]:
                    b = False
            else:
                b = None
            b = self.choose() if b is None else b
            return b == isinstance(op, ast.Is)
        if isinstance(op, (ast.Eq, ast.NotEq)) and l[0] in 'so' and l[1].endswith('|len') and r == ('c', 0):
            return self.present((l[0], l[1][:-4])) != isinstance(op, ast.Eq)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if l[0] == 'type' and r[0] == 'type':
                b = True
            else:
                b = self.eq(l, r)
            b = self.choose() if b is None else b
            return b == isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            if r[0] == 'list':
                bs = [self.eq(l, x) for x in r[1]]
                b = True if any(x is True for x in bs) else None if any(x is None for x in bs) else False
                b = self.choose() if b is None else b
                return b == isinstance(op, ast.In)
        if l[0] in 'so' and l[1].endswith('|len') and r[0] == 'c' and r[1] in (0, 1):
            # the emptiness of what may be present
            b = self.present((l[0], l[1][:-4]))
            if r[1] == 0 and isinstance(op, (ast.Gt, ast.LtE)) or r[1] == 1 and isinstance(op, (ast.GtE, ast.Lt)):
                return b == isinstance(op, (ast.Gt, ast.GtE))
        if l[0] == 'c' and r[0] == 'c' and l[1] is not None and r[1] is not None:
            try:
                return {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}[type(op)](l[1], r[1])
            except (KeyError, TypeError):
                pass
        return self.choose()

    def ev_call(self, e, env, f, cls):
        k = lambda x: self.ev(x, env, f, cls)
        fn = e.func
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
            for c in self.repo.mro(f.cls)[1:] if f.cls is not None else []:
                if nm in c.methods:
                    return self.enter(c.methods[nm], [('s', '')] + [k(a) for a in e.args], {x.arg: k(x.value) for x in e.keywords}, cls)
            return ('u',)
        args = [k(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kw = {x.arg: k(x.value) for x in e.keywords if x.arg}
        if isinstance(fn, ast.Name):
            if nm == 'isinstance' and args:
                return ('c', args[0] != NONE)
            if nm == 'type':
                return ('type', args[0] if args else None)
            if nm == 'getattr' and len(args) > 1 and args[1][0] == 'c':
                if args[0] == NONE:
                    return args[2] if len(args) > 2 else ('u',)
                return self.attr(args[0], args[1][1])
            if nm == 'hasattr':
                return ('c', args[0] != NONE)
            if nm in WRAP and len(args) == 1:
                return args[0] if nm != 'bool' else ('c', self.truth(args[0]))
            if nm == 'any' or nm == 'all':
                ts = [self.truth(x) for x in self.elements(args[0])] if args else []
                return ('c', any(ts) if nm == 'any' else all(ts))
            if nm == 'len' and args:
                return ('c', len(args[0][1])) if args[0][0] == 'list' else (args[0][0], args[0][1] + '|len') if args[0][0] in 'so' else ('u',)
            if nm == 'zip' and args:
                els = [self.elements(a) for a in args]
                return ('list', [('list', list(t)) for t in zip(*els)])
            if nm == 'enumerate' and args:
                return ('list', [('list', [('u',), x]) for x in self.elements(args[0])])
            if nm == 'range':
                return ('list', [('u',)])
            v = env.get(nm)
            if v is not None and v[0] == 'lambda':
                return self.ev(v[1].body, {**v[2], **dict(zip([a.arg for a in v[1].args.args], args))}, v[3], cls)
        recv = None
        if isinstance(fn, ast.Attribute):
            r = self.repo.resolve_expr(f, fn)
            if r is None or r[0] not in ('fn', 'ext', 'cls'):
                recv = k(fn.value)
                if recv == NONE:
                    raise Stop()
        if recv is not None and recv[0] == 'list' and nm in ('append', 'add', 'extend', 'insert') and args:
            if nm == 'extend':
                recv[1].extend(self.elements(args[0]))
            else:
                recv[1].append(args[-1])
            return NONE
        if nm in SAMEFN and len(args) >= 2:
            b = self.eq(args[0], args[1])
            return self.boo(b)
        if nm in ('is_equivalent', '__eq__') and recv is not None and args and not (recv[0] in 'so' and not recv[1]):
            return self.boo(self.eq(recv, args[0]))
        if nm == '__ne__' and recv is not None and args:
            b = self.eq(recv, args[0])
            return self.boo(None if b is None else not b)
        if recv is not None and recv[0] in 'so' and recv[1] == '':
            g = self.repo.find_method(cls, nm)
            if g is not None:
                # a method of one side only, which does not see the other, is a quantity of that side
                if not any(a[0] in 'so' and (a[0] != recv[0] or not a[1]) for a in args + list(kw.values())):
                    return (recv[0], nm)
                return self.enter(g, [recv] + args, kw, cls)
        if recv is None:
            r = self.repo.resolve_expr(f, fn)
            if r is not None and r[0] == 'fn':
                sides = {a[0] for a in args + list(kw.values()) if a[0] in 'so'}
                if len(sides) == 1 and not any(a[0] in 'so' and a[1] == '' for a in args):
                    one = [a for a in args + list(kw.values()) if a[0] in 'so']
                    return (one[0][0], f'{one[0][1]}|{nm}')
                if sides:
                    return self.enter(r[1], args, kw, cls)
        sides = [a for a in args + list(kw.values()) + ([recv] if recv is not None else []) if a[0] in 'so']
        if len(sides) == 1:
            return (sides[0][0], f'{sides[0][1]}|{nm}')
        for a in sides:
            if a[0] == 's' and ('o', a[1]) in sides and a[1]:
                self.atoms.add(a[1])
        return ('f', nm, args + [v for _, v in sorted(kw.items())] + ([recv] if recv is not None else []))

    def enter(self, g, args, kw, cls):
        env = {}
        if g.kind == 'static' and args and args[0][0] in 'so' and len(args) > len(g.params):
            args = args[1:]
        for p, a in zip(g.params, args):
            env[p] = a
        for n, v in kw.items():
            env[n] = v
        for p in g.params:
            if p not in env:
                d = g.default_of(p)
                env[p] = self.ev(d, {}, g, cls) if d is not None else ('u',)
        return self.call(g, env, cls)


class _Loop(Exception):
    pass


def outcomes(repo, cls, fn):
    """{(scenario, item): results} of the equivalence method fn as it applies to class cls; and whether all is understood."""
    out = {}
    e = Eval(repo, cls, fn, 'equal')
    out[('equal', '')] = e.run()
    items = set(e.atoms)
    e = Eval(repo, cls, fn, 'none')
    out[('none', '')] = e.run()
    e = Eval(repo, cls, fn, 'same object')
    out[('same object', '')] = e.run()
    for it in sorted(items - {'uuid'}):
        if it.split('.')[0].split('|')[0] == 'model':
            continue
        for sc in ('differ', 'self only', 'other only'):
            out[(sc, it)] = Eval(repo, cls, fn, sc, it).run()
    return out
