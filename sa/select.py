"""Abstract evaluation of selection by criteria: over how a criterion relates to what is recorded, not over values.

Values: ('c', constant), ('list', [...]), ('map', {...}), ('s', p) a criterion (argument p), ('o', h) what is recorded of the candidate under heading h, either with operations
applied ('s', 'title', ('upper',)); ('part',) the candidate, ('rec',) its record, ('coll', 's'|'o') the collection selected into or from, ('relset', kinds), ('u',) unknown. The
scenario says how each criterion in use relates to the record; conditions it does not settle are followed both ways.
"""

import ast

from .equiv import Eval, Ret, Stop, NONE, _Loop

STR_OPS = {'upper': 'case', 'lower': 'case', 'casefold': 'case', 'strip': 'strip'}


class Select(Eval):

    def __init__(self, repo, fn, cls, headings, scen, consts=None, stored=None, stubs=None):
        """scen: {criterion: (heading, relation)}; consts: {argument: constant or value}; stored: {heading: value} for headings recorded as known values."""
        super().__init__(repo, cls, fn)
        self.head, self.rel = headings, scen
        self.consts, self.stored, self.stubs = consts or {}, stored or {}, stubs or {}
        self.by_heading = {h: (c, r) for c, (h, r) in scen.items()}

    # ---- drive
    def run_env(self, env, limit=4000, result=None):
        todo, n = [[]], 0
        out = set()
        while todo and n < limit:
            n += 1
            self.choices, self.pos, self.facts, self.depth, self.trail = todo.pop(), 0, {}, 0, []
            self.added = False
            e = {p: (self.ev(d, {}, self.fn, self.cls) if (d := self.fn.default_of(p)) is not None else ('u',)) for p in self.fn.params}
            for p in self.consts:
                if p in e:
                    v = self.consts[p]
                    e[p] = v if isinstance(v, tuple) else ('c', v)
            for p in self.rel:
                if p in e and p not in self.consts:
                    e[p] = ('s', p, ())
            e.update({k: v for k, v in env.items() if k in e})
            try:
                r = self.call(self.fn, e, self.cls)
                out.add(result(self, r) if result else 'in' if self.added else 'out')
            except Stop:
                out.add('raise')
            for i in range(len(self.choices), self.pos):
                todo.append(self.trail[:i] + [False])
        if n >= limit:
            out.add('?')
        return out

    # ---- knowledge
    def truthval(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('list', 'map'):
            return bool(v[1])
        if v[0] == 's':
            return True
        if v[0] == 'o':
            if v[1] in self.stored:
                return self.truthval(self.stored[v[1]])
            b = self.absent(v)
            return False if b else True if b is False else None
        if v[0] in ('part', 'rec', 'coll', 'bound', 'relset', 'partset', 'relmap'):
            return True
        return None

    def absent(self, v):
        r = self.by_heading.get(v[1])
        if r is None:
            return None
        return r[1].startswith('absent')

    def eq(self, a, b):
        if a[0] == 'o' and a[1] in self.stored:
            a = self.stored[a[1]]
        if b[0] == 'o' and b[1] in self.stored:
            b = self.stored[b[1]]
        if a[0] == 'c' and b[0] == 'c':
            return a[1] == b[1]
        if a == NONE or b == NONE:
            x = b if a == NONE else a
            if x[0] == 'o':
                r = self.absent(x)
                return self.choose(('absent', x[1])) if r is None else r
            return None if x[0] in 'uf' else False
        if a[0] == 'part' and b[0] == 'part':
            return a == b
        if {a[0], b[0]} == {'s', 'o'}:
            return self.related(a, b, 'is')
        if a[0] in 'so' and a[0] == b[0]:
            return True if a == b else None
        for x, y in ((a, b), (b, a)):
            if x[0] in 'so' and y[0] == 'c':
                return False
            if x[0] == 'cat' and y[0] in 'so':
                if y[0] == 'o' and x[1][0] == 'c' and x[2][0] == 's':
                    c = x[2][1]
                    return self.rel.get(c, ('', ''))[0] == y[1] and self.rel[c][1] == 'same prefixed'
                return False
        if a[0] == 'list' and b[0] == 'list' and len(a[1]) == len(b[1]):
            rs = [self.eq(x, y) for x, y in zip(a[1], b[1])]
            return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
        return None

    def related(self, a, b, how):
        """how: is / starts / ends / contains (recorded, compared with the criterion)."""
        s, o = (a, b) if a[0] == 's' else (b, a)
        r = self.rel.get(s[1])
        if r is None or r[0] != o[1]:
            return False            # compared with something else altogether
        r = r[1]
        ops = [set(STR_OPS.get(x) for x in v[2]) for v in (s, o)]
        for mark, op in ((' but for case', 'case'), (' but for blanks', 'strip')):
            if r.endswith(mark):
                if not (op in ops[0] and op in ops[1]):
                    return False
                r = r[:-len(mark)]
        if ('case' in ops[0]) != ('case' in ops[1]):
            return False            # one converted, the other not
        if r in ('same',):
            return True
        return {'is': False, 'starts': r == 'starts', 'ends': r == 'ends', 'contains': r in ('starts', 'ends', 'contains')}[how]

    # ---- expressions
    def attr(self, v, name):
        if v == NONE:
            raise Stop()
        if v[0] == 'coll':
            if name == 'dict':
                return ('dict', v[1])
            if name == 'model':
                return ('model',)
            g = self.repo.find_method(self.cls, name) if self.cls is not None else None
            return ('bound', g, v) if g is not None else ('u',)
        if v[0] == 'model':
            if name in ('parts_forest', 'object_parts'):
                return ('forest',)
            if name == 'uuid_part_dict':
                return ('uuidparts',)
            if name == 'uuid_rels_dict':
                return ('relmap',)
            if name == 'rels_present':
                return ('c', True)
            return ('mattr', name)
        if v[0] in 'so' and name in ('int', 'text'):
            return v if name == 'int' or v[0] == 's' else self.stored.get(v[1] + '.text', v)
        if v[0] == 'node':
            return v[1] if name == 'text' else ('u',)
        return ('u',)

    def item_of(self, v, i):
        if v[0] == 'dict':
            return ('rec',)
        if v[0] == 'rec':
            return ('o', self.head[i], ()) if isinstance(i, int) and -len(self.head) <= i < len(self.head) else ('u',)
        if v[0] == 'forest':
            return ('frec',)
        if v[0] == 'frec':
            return ('o', ('type', 'uuid', 'tree')[i], ()) if i in (0, 1, 2) else ('u',)
        if v[0] == 'rels' and isinstance(i, int) and -3 <= i < 3:
            return ('relset', frozenset([i % 3]))
        if v[0] == 'map':
            return v[1].get(i, ('u',))
        if v[0] == 's' and i == 0:
            return ('s', v[1] + '[0]', v[2])
        if v[0] == 'list':
            return v[1][i] if isinstance(i, int) and -len(v[1]) <= i < len(v[1]) else ('u',)
        return ('u',)

    def elements(self, v):
        if v[0] == 'list':
            return v[1]
        if v[0] == 'map':
            return [('c', k) for k in v[1]]
        if v[0] in ('dict', 'forest'):
            return [('part',)]
        return [('u',)]

    def assign(self, t, v, env):
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, self.fn, self.cls) if self._simple(t.value) else ('u',)
            if b == ('dict', 's'):
                self.added = v == ('rec',)
            return
        if isinstance(t, (ast.Tuple, ast.List)) and v[0] in ('rec', 'frec', 'rels'):
            for i, x in enumerate(t.elts):
                self.assign(x, self.item_of(v, i), env)
            return
        super().assign(t, v, env)

    def stmt(self, st, env, f, cls):
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            env[st.target.id] = self.ev(ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value), env, f, cls)
            return
        super().stmt(st, env, f, cls)

    def _simple(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name)

    def ev(self, e, env, f, cls):
        if isinstance(e, ast.JoinedStr):
            vs = [('c', x.value) if isinstance(x, ast.Constant) else self.ev(x.value, env, f, cls) for x in e.values]
            return ('cat', vs[0], vs[1]) if len(vs) == 2 else vs[0] if len(vs) == 1 else ('u',)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env, f, cls), self.ev(e.right, env, f, cls)
            if isinstance(e.op, ast.Add):
                if a[0] == 'list' and b[0] == 'list':
                    return ('list', a[1] + b[1])
                return ('cat', a, b)
            if a[0] == 'relset' and b[0] == 'relset':
                return ('relset', a[1] | b[1] if isinstance(e.op, ast.BitOr) else a[1] & b[1])
            return ('f', type(e.op).__name__, [a, b])
        if isinstance(e, ast.Dict):
            return ('map', {k.value: self.ev(v, env, f, cls) for k, v in zip(e.keys, e.values) if isinstance(k, ast.Constant)})
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return ('u',)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, env, f, cls)
            return ('c', -v[1]) if v[0] == 'c' and isinstance(v[1], (int, float)) else ('u',)
        return super().ev(e, env, f, cls)

    def compare(self, op, l, r):
        if l[0] == 'o' and l[1] in self.stored:
            l = self.stored[l[1]]
        if r[0] == 'o' and r[1] in self.stored:
            r = self.stored[r[1]]
        if isinstance(op, (ast.In, ast.NotIn)):
            b = None
            if r[0] in ('dict', 'keys'):
                b = r[1] == 'o'
            elif r[0] == 'forest':
                b = True
            elif r[0] == 'map' and l[0] == 'c':
                b = l[1] in r[1]
            elif r[0] == 'relset':
                b = l[0] == 'o' and l[1] == 'uuid' and self.relkind in r[1]
            elif l[0] == 's' and r[0] == 'o':
                b = self.related(l, r, 'contains')
            elif l[0] == 'o' and r[0] == 's':
                b = self.related(l, r, 'is')
            elif r[0] == 'list':
                bs = [self.eq(l, x) for x in r[1]]
                b = True if any(x is True for x in bs) else None if any(x is None for x in bs) else False
            b = self.choose() if b is None else b
            return b == isinstance(op, ast.In)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            b = self.eq(l, r)
            b = self.choose() if b is None else b
            return b == isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.IsNot)):
            b = self.eq(l, r) if l == NONE or r == NONE or l[0] == r[0] == 'c' else None
            b = self.choose() if b is None else b
            return b == isinstance(op, ast.Is)
        return super().compare(op, l, r)

    relkind = None

    def ev_call(self, e, env, f, cls):
        k = lambda x: self.ev(x, env, f, cls)
        fn = e.func
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        if nm in ('debug', 'info', 'warning'):
            return NONE
        args = [k(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kw = {x.arg: k(x.value) for x in e.keywords if x.arg}
        recv = None
        target = None
        if isinstance(fn, ast.Name) and fn.id in env:
            v = env[fn.id]
            if v[0] == 'bound':
                return self.enter(v[1], [v[2]] + args, kw, self.cls)
            if v[0] == 'lambda':
                return self.ev(v[1].body, {**v[2], **dict(zip([a.arg for a in v[1].args.args], args))}, v[3], cls)
            if v[0] == 'fnref':
                target = v[1]
            else:
                return ('u',)
        if isinstance(fn, ast.Attribute):
            r = self.repo.resolve_expr(f, fn)
            if r is not None and r[0] == 'fn':
                target = r[1]
            elif r is None:
                recv = k(fn.value)
        elif isinstance(fn, ast.Name) and target is None:
            r = self.repo.resolve_expr(f, fn)
            if r is not None and r[0] == 'fn':
                target = r[1]
        if nm in self.stubs:
            return self.stubs[nm](self, recv, args, kw)
        if recv is not None:
            if recv == NONE:
                raise Stop()
            b = self.method(recv, nm, args, kw)
            if b is not None:
                return b
            if recv[0] == 'coll':
                g = self.repo.find_method(self.cls, nm)
                if g is not None:
                    return self.enter(g, [recv] + args, kw, self.cls)
            if recv[0] == 'model':
                m = self.repo.classes.get('resqpy.model._model.Model') or next((c for c in self.repo.classes.values() if c.name == 'Model'), None)
                g = self.repo.find_method(m, nm) if m is not None else None
                if g is not None:
                    return self.enter(g, [recv] + args, kw, m)
            return ('u',)
        if target is not None:
            if nm == 'matching_uuids' and len(args) > 1:
                return self.boo(self.eq(args[0], args[1]))
            if nm in ('uuid_as_int', 'uuid_from_string', 'uuid_as_str', 'uuid_from_int') and args:
                return args[0]
            if any(self.relevant(a) for a in args + list(kw.values())) or isinstance(target.node.body[0], ast.Return):
                return self.enter(target, args, kw, cls)
            return ('u',)
        if isinstance(fn, ast.Name):
            if nm == 'isinstance' and len(args) > 1:
                return self.isinst(args[0], ast.unparse(e.args[1]))
            if nm == 'len' and args:
                a = args[0]
                if a[0] == 'o' and a[1] in self.stored:
                    a = self.stored[a[1]]
                return ('c', len(a[1])) if a[0] in ('list', 'map') else ('u',)
            if nm in ('list', 'tuple', 'iter', 'sorted') and len(args) == 1:
                return ('list', list(self.elements(args[0]))) if args[0][0] in ('list', 'dict', 'forest', 'map') else args[0]
            if nm == 'str' and args:
                return args[0] if args[0][0] != 'c' else ('c', str(args[0][1]))
            if nm == 'bool' and args:
                return ('c', self.truth(args[0]))
            if nm in ('any', 'all') and args:
                ts = [self.truth(x) for x in self.elements(args[0])]
                return ('c', any(ts) if nm == 'any' else all(ts))
            if nm == 'filter' and len(args) == 2:
                out = []
                for x in self.elements(args[1]):
                    if args[0][0] == 'lambda':
                        v = self.ev(args[0][1].body, {**args[0][2], args[0][1].args.args[0].arg: x}, args[0][3], cls)
                        if self.truth(v):
                            out.append(x)
                return ('list', out)
            if nm == 'enumerate' and args:
                return ('list', [('list', [('c', i), x]) for i, x in enumerate(self.elements(args[0]))])
        return ('u',)

    def relevant(self, a):
        if a[0] in ('s', 'o', 'part', 'rec', 'coll', 'model', 'relmap', 'forest', 'bound', 'rels', 'relset'):
            return True
        if a[0] == 'list':
            return any(self.relevant(x) for x in a[1])
        if a[0] == 'map':
            return any(self.relevant(x) for x in a[1].values())
        return a[0] == 'c' and a[1] is not None

    def isinst(self, v, t):
        if v[0] == 'c':
            names = {x.strip().split('.')[-1] for x in t.strip('()').split(',')}
            return ('c', type(v[1]).__name__ in names or isinstance(v[1], bool) and 'int' in names)
        return ('c', self.choose(('isinstance', v[:2], t)))

    def method(self, recv, nm, args, kw):
        if recv[0] == 'o' and recv[1] in self.stored:
            recv = self.stored[recv[1]]
        if recv[0] in 'so' and nm in STR_OPS:
            return (recv[0], recv[1], recv[2] + (nm,))
        if recv[0] == 'c' and nm in STR_OPS and isinstance(recv[1], str):
            return ('c', getattr(recv[1], nm)())
        if recv[0] == 's' and recv[1].endswith('[0]') and nm == 'isupper':
            return ('c', self.rel[recv[1][:-3]][1].endswith('prefixed'))
        if recv[0] == 's' and nm in ('startswith', 'endswith') and args and args[0][0] == 'c':
            return ('c', self.rel.get(recv[1] , ('', ''))[1].endswith('slashed') and nm == 'endswith')
        if nm in ('startswith', 'endswith') and args and {recv[0], args[0][0]} == {'s', 'o'}:
            return ('c', self.related(recv, args[0], nm[:-4]) if recv[0] == 'o' else False)
        if nm == '__contains__' and args and recv[0] == 'o' and args[0][0] == 's':
            return ('c', self.related(recv, args[0], 'contains'))
        if recv[0] == 'part' and nm == 'endswith':
            return ('c', False)
        if recv[0] == 'part' and nm == 'startswith' and args:
            return ('c', self.part_under(args[0]))
        if recv[0] in ('dict', 'forest'):
            if nm == 'items':
                return ('list', [('list', [('part',), self.item_of(recv, 0)])])
            if nm == 'keys':
                return ('keys', recv[1]) if recv[0] == 'dict' else recv
            if nm == 'get':
                return self.item_of(recv, 0)
            if nm == 'values':
                return ('list', [self.item_of(recv, 0)])
        if recv[0] == 'map':
            if nm == 'items':
                return ('list', [('list', [('c', a), b]) for a, b in recv[1].items()])
            if nm == 'keys':
                return ('list', [('c', a) for a in recv[1]])
            if nm == 'values':
                return ('list', list(recv[1].values()))
            if nm == 'get' and args:
                return recv[1].get(args[0][1], args[1] if len(args) > 1 else NONE) if args[0][0] == 'c' else ('u',)
        if recv[0] == 'uuidparts' and nm == 'get' and args:
            c = args[0]
            r = self.rel.get(c[1], ('', ''))[1] if c[0] == 's' else ''
            return ('part',) if r == 'same' else NONE if r.startswith('absent') else ('part', 'another')
        if recv[0] == 'relmap' and nm == 'get':
            return NONE if self.relkind == 'unknown' else ('rels',)
        if recv[0] == 'list' and nm in ('append', 'add', 'extend', 'insert') and args:
            if nm == 'extend':
                recv[1].extend(self.elements(args[0]))
            else:
                recv[1].append(args[-1])
            return NONE
        if recv[0] == 'list' and nm == 'copy':
            return ('list', list(recv[1]))
        if recv[0] == 'list' and nm == 'remove' and args:
            recv[1][:] = [x for x in recv[1] if x != args[0]]
            return NONE
        if recv[0] == 'relset':
            if nm in ('union', 'intersection') and all(a[0] == 'relset' for a in args):
                s = recv[1]
                for a in args:
                    s = s | a[1] if nm == 'union' else s & a[1]
                return ('relset', s)
        return None

    def part_under(self, a):
        """does the candidate's name start with this sub-directory?"""
        while a[0] == 'cat':
            a = a[1]
        return a[0] == 's' and self.rel.get(a[1], ('', ''))[1].startswith('same')
