"""Conditions under which a function has an effect.

For a function (with the functions it calls which have such effects opened up at the call) the condition under which each effect is
reached is computed from the source as a boolean formula over atomic tests in a normal form: locals are replaced by what they hold,
comparisons are oriented, boolean flags are opened into the condition they were set under. Two formulas over the same atoms are compared by
their truth tables, so that nesting, early exits, order and naming make no difference.
"""

import ast
import itertools
import random
import re

TRUE = ('t',)
FALSE = ('f',)


def land(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE or a == b:
        return a
    return ('and', a, b)


def lor(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE or a == b:
        return a
    return ('or', a, b)


def lnot(a):
    if a == TRUE:
        return FALSE
    if a == FALSE:
        return TRUE
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def ite(c, a, b):
    if a == b:
        return a
    return lor(land(c, a), land(lnot(c), b))


def atoms(f, out=None):
    out = set() if out is None else out
    st = [f]
    while st:
        x = st.pop()
        if x[0] == 'a':
            out.add(x[1])
        elif x[0] in ('and', 'or', 'not'):
            st.extend(x[1:])
    return out


def size(f):
    n, st = 0, [f]
    while st:
        x = st.pop()
        n += 1
        if x[0] in ('and', 'or', 'not'):
            st.extend(x[1:])
    return n


def code(f, names):
    if f == TRUE:
        return 'True'
    if f == FALSE:
        return 'False'
    if f[0] == 'a':
        return f'v[{names[f[1]]}]'
    if f[0] == 'not':
        return f'(not {code(f[1], names)})'
    return '(' + f' {f[0]} '.join(code(x, names) for x in f[1:]) + ')'


def evaluator(f, names):
    """evaluates a formula bottom up (sub-formulas shared)."""
    memo = {}

    def ev(x, v):
        if x == TRUE:
            return True
        if x == FALSE:
            return False
        if x[0] == 'a':
            return v[names[x[1]]]
        if x[0] == 'not':
            return not ev(x[1], v)
        if x[0] == 'and':
            return ev(x[1], v) and ev(x[2], v)
        return ev(x[1], v) or ev(x[2], v)
    return lambda v: ev(f, v)


def assignments(n, limit=11):
    if n <= limit:
        return itertools.product((False, True), repeat=n)
    r = random.Random(7)
    return ([r.random() < p for _ in range(n)] for p in (0.5, 0.2, 0.8, 0.35, 0.65) for _ in range(600))


def consistent(v, excl):
    """not two different values of the same thing at once; not present in parts of something absent."""
    return all(not (v[i] and v[j]) for i, j in excl)


def differ(f, g):
    names = {a: i for i, a in enumerate(sorted(atoms(f) | atoms(g)))}
    excl = []
    eq = {}
    for a, i in names.items():
        m = re.match(r"^(.*) == ('[^']*'|-?\d+)$", a) or re.match(r"^('[^']*') == (.*)$", a)
        if m:
            k = m.group(1) if not m.group(1).startswith("'") else m.group(2)
            eq.setdefault(k, []).append(i)
        if a.endswith(' is None') and a[:-8] in names:
            excl.append((i, names[a[:-8]]))
        m = re.match(r'^(.*) is None$', a)
    for k, l in eq.items():
        excl += list(itertools.combinations(l, 2))
        if k + ' is None' in names:
            excl += [(i, names[k + ' is None']) for i in l]
    e1, e2 = evaluator(f, names), evaluator(g, names)
    for v in assignments(len(names)):
        if consistent(v, excl) and e1(v) != e2(v):
            return {a: v[i] for a, i in names.items()}
    return None


def depends(f, atom):
    """whether a formula's value ever depends on an atom."""
    return differ(subst(f, atom, TRUE), subst(f, atom, FALSE)) is not None


def subst(f, atom, val):
    if f[0] == 'a':
        return val if f[1] == atom else f
    if f[0] == 'not':
        return lnot(subst(f[1], atom, val))
    if f[0] == 'and':
        return land(subst(f[1], atom, val), subst(f[2], atom, val))
    if f[0] == 'or':
        return lor(subst(f[1], atom, val), subst(f[2], atom, val))
    return f


def tup(x):
    """formula from its json form."""
    return tuple(tup(y) if isinstance(y, list) else y for y in x)


def skeleton(a):
    return re.sub(r"'[^']*'|\b\d+(\.\d+)?\b|True|False|None", '#', a)


def plain(it):
    """text of a sequence less copying, ordering and cutting; the cut."""
    cut = ''
    while True:
        m = re.match(r'^(?:list|tuple|iter|sorted|set|reversed)\(([^()]*(?:\([^()]*\)[^()]*)*)\)$', it)
        if m:
            it = m.group(1)
            continue
        m = re.match(r'^(.*[\w\])])\[([^\[\]]*:[^\[\]]*)\]$', it)
        if m:
            it = m.group(1)
            if m.group(2) not in (':', '::-1'):
                cut = cut or m.group(2)
            continue
        return it, cut


NUMERIC = re.compile(r'(index|count|value|number|realization|offset|depth|md|thickness|angle|null|ordinal|level|age|length)$')


class F:
    """a formula held by a variable."""

    def __init__(self, f):
        self.f = f


LIMIT = 220


class Walker:

    def __init__(self, repo, is_effect, opens, maxdepth=4):
        self.repo = repo
        self.is_effect = is_effect   # (fn, node, text) -> key or None
        self.opens = opens           # fn -> bool: opened up at calls
        self.maxdepth = maxdepth
        self.eff = {}
        self.where = {}
        self.calls = 0

    # ------------------------------------------------------------------ text of expressions
    def text(self, e, env, fn):
        t = _Sub(env, self).do(e)
        return t if len(t) <= LIMIT else 'long ' + ','.join(sorted(set(re.findall(r'\.(\w+)', t))))[:LIMIT]

    def cond(self, e, env, fn, depth=0):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return lnot(self.cond(e.operand, env, fn, depth))
        if isinstance(e, ast.BoolOp):
            fs = [self.cond(x, env, fn, depth) for x in e.values]
            out = fs[0]
            for x in fs[1:]:
                out = land(out, x) if isinstance(e.op, ast.And) else lor(out, x)
            return out
        if isinstance(e, ast.Constant):
            return TRUE if e.value else FALSE
        if isinstance(e, ast.IfExp):
            return ite(self.cond(e.test, env, fn, depth), self.cond(e.body, env, fn, depth), self.cond(e.orelse, env, fn, depth))
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), F):
            return env[e.id].f
        if isinstance(e, ast.NamedExpr):
            env[e.target.id] = self.value(e.value, env, fn)
            return self.cond(e.value, env, fn, depth)
        if isinstance(e, ast.Compare):
            out = TRUE
            l = e.left
            for op, r in zip(e.ops, e.comparators):
                out = land(out, self.compare(type(op), l, r, env, fn, depth))
                l = r
            return out
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else ''
            if nm == 'bool' and len(e.args) == 1:
                return self.cond(e.args[0], env, fn, depth)
            if nm == 'len' and len(e.args) == 1:
                return self.cond(e.args[0], env, fn, depth)
            r = self.predicate(e, env, fn, depth)
            if r is not None:
                return r
        return ('a', self.text(e, env, fn))

    def predicate(self, e, env, fn, depth):
        """opens a call of a function which merely returns an expression."""
        if depth > 3:
            return None
        tgt, self_e = self.target(e, fn)
        if tgt is None:
            return None
        body = [s for s in tgt.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        e2 = self.bind(e, tgt, self_e, env, fn)
        return None if e2 is None else self.cond(body[0].value, e2, tgt, depth + 1)

    def compare(self, op, l, r, env, fn, depth):
        for a, b, flip in ((l, r, False), (r, l, True)):
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and isinstance(b, ast.Constant):
                o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op) if flip else op
                if (o is ast.Gt and b.value == 0) or (o is ast.GtE and b.value == 1) or (o is ast.NotEq and b.value == 0):
                    return self.cond(a.args[0], env, fn, depth)
                if (o is ast.Eq and b.value == 0) or (o is ast.Lt and b.value == 1) or (o is ast.LtE and b.value == 0):
                    return lnot(self.cond(a.args[0], env, fn, depth))
        if op in (ast.NotEq, ast.NotIn, ast.IsNot):
            return lnot(self.compare({ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[op], l, r, env, fn, depth))
        if isinstance(r, ast.Constant) and isinstance(r.value, bool) and op in (ast.Is, ast.Eq):
            c = self.cond(l, env, fn, depth)
            return c if r.value else lnot(c)
        if isinstance(r, ast.Constant) and r.value is None and op in (ast.Is, ast.Eq) and isinstance(l, ast.Name) and isinstance(env.get(l.id), F):
            return FALSE
        if op is ast.In and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and r.elts and len(r.elts) <= 6:
            out = FALSE
            for x in r.elts:
                out = lor(out, self.compare(ast.Eq, l, x, env, fn, depth))
            return out
        a, b = self.text(l, env, fn), self.text(r, env, fn)
        if b == 'None' and op in (ast.Is, ast.Eq):
            if a == 'None':
                return TRUE
            if a.startswith('phi(') and a.endswith(')') and depth < 3:
                pass
            return ('a', f'{a} is None')
        if op in (ast.Eq, ast.Is):
            if re.fullmatch(r"'[^']*'|-?\d+", a) and re.fullmatch(r"'[^']*'|-?\d+", b):
                return TRUE if a == b else FALSE
            a, b = sorted((a, b))
            if re.fullmatch(r"'[^']*'|-?\d+", a):
                a, b = b, a
            return ('a', f'{a} == {b}')
        if op is ast.In:
            b = re.sub(r'\.keys\(\)$', '', b)
            b = re.sub(r'^list\((.*)\)$', r'\1', b)
            return ('a', f'{a} in {b}')
        if op is ast.Gt:
            a, b = b, a
            op = ast.Lt
        elif op is ast.LtE:
            a, b = b, a
            op = ast.GtE
        # now a < b or a >= b
        neg = op is ast.GtE
        if re.fullmatch(r'-?\d+', a):       # n < b  ->  not (b < n+1)
            a, b, neg = b, str(int(a) + 1), not neg
        f = ('a', f'{a} < {b}')
        return lnot(f) if neg else f

    # ------------------------------------------------------------------ values of variables
    def value(self, e, env, fn):
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return F(TRUE if e.value else FALSE)
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), F):
            return env[e.id]
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            if not (isinstance(e, ast.BoolOp) and not all(isinstance(x, (ast.Compare, ast.UnaryOp)) for x in e.values)):
                return F(self.cond(e, env, fn))
        if isinstance(e, ast.IfExp):
            a, b = self.value(e.body, env, fn), self.value(e.orelse, env, fn)
            return self.merge_val(self.cond(e.test, env, fn), a, b)
        return self.text(e, env, fn)

    def merge_val(self, c, a, b):
        if isinstance(a, F) and isinstance(b, F):
            return F(ite(c, a.f, b.f)) if size(a.f) + size(b.f) + size(c) < 400 else 'flag'
        a = _show(a)
        b = _show(b)
        if a == b:
            return a
        parts = set()
        for x in (a, b):
            parts |= set(x[4:-1].split(' | ')) if x.startswith('phi(') else {x}
        t = 'phi(' + ' | '.join(sorted(parts)) + ')'
        return t if len(t) <= LIMIT else 'phi ' + ','.join(sorted(set(re.findall(r'\.(\w+)', t))))[:LIMIT]

    def merge(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            if k in e1 and k in e2:
                out[k] = e1[k] if e1[k] is e2[k] else self.merge_val(c, e1[k], e2[k])
            else:
                out[k] = e1.get(k, e2.get(k))
        return out

    def assign(self, t, v, env, fn, vexpr=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(vexpr, (ast.Tuple, ast.List)) and len(vexpr.elts) == len(t.elts):
                    self.assign(x, self.value(vexpr.elts[i], env, fn), env, fn, vexpr.elts[i])
                else:
                    self.assign(x, f'{_show(v)}[{i}]', env, fn)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fn)

    # ------------------------------------------------------------------ statements
    def run(self, fn, env=None):
        env = dict(env or {})
        for i, p in enumerate(fn.params):
            env.setdefault(p, p)
        self.block(fn.node.body, TRUE, env, fn, 0, None, frozenset([fn.qual]))
        return self.eff

    def note(self, fn, n, key, pc):
        self.eff[key] = lor(self.eff.get(key, FALSE), pc)
        self.where.setdefault(key, fn.loc(n))

    def effects(self, node, pc, env, fn, depth, stack):
        """effects within the expressions of a statement (in textual order)."""
        st = [(node, pc)]
        while st:
            n, pc = st.pop(0)
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, ast.IfExp):
                c = self.cond(n.test, env, fn)
                st = [(n.test, pc), (n.body, land(pc, c)), (n.orelse, land(pc, lnot(c)))] + st
                continue
            if isinstance(n, ast.BoolOp):
                p, add = pc, []
                for x in n.values:
                    add.append((x, p))
                    if any(isinstance(y, ast.Call) for z in n.values[1:] for y in ast.walk(z)):
                        c = self.cond(x, env, fn)
                        p = land(p, c if isinstance(n.op, ast.And) else lnot(c))
                st = add + st
                continue
            st = [(x, pc) for x in ast.iter_child_nodes(n)] + st
            if isinstance(n, (ast.Call, ast.Assign, ast.AugAssign, ast.Delete, ast.Return)):
                k = self.is_effect(fn, n, lambda e: self.text(e, env, fn))
                if k is not None:
                    self.note(fn, n, k, pc)
            if isinstance(n, ast.Call) and depth < self.maxdepth:
                tgt, self_e = self.target(n, fn)
                if tgt is not None and tgt.qual not in stack and self.opens(tgt):
                    e2 = self.bind(n, tgt, self_e, env, fn)
                    if e2 is not None:
                        self.calls += 1
                        self.block(tgt.node.body, pc, e2, tgt, depth + 1, None, stack | {tgt.qual})

    def target(self, n, fn):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and fn.cls is not None:
            name = f.attr
            m = self.repo.find_method(fn.cls, name) or (self.repo.find_method(fn.cls, f'_{fn.cls.name}{name}') if name.startswith('__') else None)
            return (m, f.value) if m is not None else (None, None)
        try:
            ent = self.repo.resolve_expr(fn, f)
        except Exception:
            ent = None
        if ent is not None and ent[0] == 'fn':
            return ent[1], None
        return None, None

    def bind(self, call, tgt, self_e, env, fn):
        a = tgt.node.args
        pars = [p.arg for p in a.posonlyargs + a.args]
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        out = {}
        pos = list(call.args)
        if tgt.cls is not None and tgt.kind == 'method' and tgt.parent is None:
            if self_e is None:
                return None
            out[pars[0]] = self.value(self_e, env, fn)
            pars = pars[1:]
        if tgt.parent is fn or (tgt.parent is not None and tgt.parent is fn):
            out = {**{k: v for k, v in env.items() if k not in tgt.params}, **out}
        for p, x in zip(pars, pos):
            out[p] = self.value(x, env, fn)
        for k in call.keywords:
            out[k.arg] = self.value(k.value, env, fn)
        for p in tgt.params:
            if p not in out:
                d = tgt.default_of(p)
                out[p] = self.value(d, {}, tgt) if d is not None else p
        return out

    def block(self, stmts, pc, env, fn, depth, loop, stack):
        """runs a block in place on env; returns the condition on which its end is reached (env updated), FALSE if never."""
        for s in stmts:
            if pc == FALSE:
                return FALSE
            pc = self.stmt(s, pc, env, fn, depth, loop, stack)
        return pc

    def stmt(self, s, pc, env, fn, depth, loop, stack):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return pc
        if isinstance(s, ast.If):
            self.effects(s.test, pc, env, fn, depth, stack)
            c = self.cond(s.test, env, fn)
            e1, e2 = dict(env), dict(env)
            p1 = self.block(s.body, land(pc, c), e1, fn, depth, loop, stack)
            p2 = self.block(s.orelse, land(pc, lnot(c)), e2, fn, depth, loop, stack)
            env.clear()
            if p1 == FALSE:
                env.update(e2)
            elif p2 == FALSE:
                env.update(e1)
            else:
                env.update(self.merge(c, e1, e2))
            # an error raised is not a silent condition
            for mine, other, body in ((p1, p2, s.body), (p2, p1, s.orelse)):
                if mine == FALSE and body and isinstance(body[-1], ast.Raise) and other in (land(pc, c), land(pc, lnot(c))):
                    return pc
            r = lor(p1, p2)
            if p1 == land(pc, c) and p2 == land(pc, lnot(c)):
                return pc
            return r
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            e1 = dict(env)
            if isinstance(s, ast.While):
                self.effects(s.test, pc, env, fn, depth, stack)
                c = self.cond(s.test, env, fn)
            else:
                self.effects(s.iter, pc, env, fn, depth, stack)
                it = self.text(s.iter, env, fn)
                it, cut = plain(it)
                m = re.match(r'^enumerate\((.*)\)$', it)
                if m and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
                    it = m.group(1)
                    it, c2 = plain(it)
                    cut = cut or c2
                    self.assign(s.target.elts[1], f'each({it})', e1, fn)
                    self.assign(s.target.elts[0], f'index({it})', e1, fn)
                else:
                    m = re.match(r'^range\(len\((.*)\)\)$', it)
                    if m:
                        it = m.group(1)
                        self.assign(s.target, f'index({it})', e1, fn)
                    else:
                        self.assign(s.target, 'each(literal)' if it[:1] in '[(' else f'each({it})', e1, fn)
                c = ('a', f'for {it}')
                if cut:
                    c = land(c, ('a', f'within {cut}'))
            ex = []
            p1 = self.block(s.body, land(pc, c), e1, fn, depth, ex, stack)
            outs = ([(p1, e1)] if p1 != FALSE else []) + ex
            cur = dict(env)
            for p, e in outs:
                # the condition relative to what was known on entry
                cur = self.merge(p, e, cur)
            env.clear()
            env.update(cur)
            self.block(s.orelse, pc, env, fn, depth, loop, stack)
            return pc
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for w in s.items:
                self.effects(w.context_expr, pc, env, fn, depth, stack)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, self.text(w.context_expr, env, fn), env, fn)
            return self.block(s.body, pc, env, fn, depth, loop, stack)
        if isinstance(s, ast.Try):
            e0 = dict(env)
            p1 = self.block(s.body, pc, env, fn, depth, loop, stack)
            p1 = self.block(s.orelse, p1, env, fn, depth, loop, stack) if p1 != FALSE else FALSE
            for h in s.handlers:
                e1 = dict(e0)
                c = ('a', 'exception')
                p2 = self.block(h.body, land(pc, c), e1, fn, depth, loop, stack)
                if p2 != FALSE:
                    if p1 == FALSE:
                        env.clear()
                        env.update(e1)
                        p1 = p2
                    else:
                        m = self.merge(c, e1, env)
                        env.clear()
                        env.update(m)
                        p1 = pc if p1 == pc else lor(p1, p2)
            if s.finalbody:
                p3 = self.block(s.finalbody, pc, env, fn, depth, loop, stack)
                if p3 == FALSE:
                    return FALSE
            return p1
        if isinstance(s, ast.Assert):
            self.effects(s, pc, env, fn, depth, stack)
            return pc
        self.effects(s, pc, env, fn, depth, stack)
        if isinstance(s, (ast.Return, ast.Raise)):
            return FALSE
        if isinstance(s, (ast.Break, ast.Continue)):
            if loop is not None:
                loop.append((pc, dict(env)))
            return FALSE
        if isinstance(s, ast.Assign):
            v = self.value(s.value, env, fn)
            for t in s.targets:
                self.assign(t, v, env, fn, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.value(s.value, env, fn), env, fn, s.value)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            old = env.get(s.target.id, s.target.id)
            v = f'{_show(old)} {type(s.op).__name__} {self.text(s.value, env, fn)}'
            env[s.target.id] = v if len(v) <= LIMIT else 'sum'
        return pc


def _show(v):
    if isinstance(v, F):
        return 'True' if v.f == TRUE else 'False' if v.f == FALSE else 'flag(' + ','.join(sorted(atoms(v.f)))[:150] + ')'
    return v


class _Sub:
    """text of an expression with variables replaced by what they hold."""

    def __init__(self, env, w):
        self.env = env
        self.w = w

    def do(self, e):
        bound = {}
        for n in ast.walk(e):
            if isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        bound[x.id] = f'_{len(bound)}'
            elif isinstance(n, ast.Lambda):
                for x in n.args.args:
                    bound[x.arg] = f'_{len(bound)}'
        env = self.env
        marks = {}

        class T(ast.NodeTransformer):

            def visit_Name(self, n):
                if n.id in bound:
                    return ast.Name(bound[n.id], ast.Load())
                v = env.get(n.id)
                if v is None or v == n.id:
                    return n
                k = f'MARK{len(marks)}X'
                marks[k] = _show(v)
                return ast.Name(k, ast.Load())

        import copy
        t = ast.unparse(T().visit(copy.deepcopy(e)))
        for k in sorted(marks, key=len, reverse=True):
            t = t.replace(k, marks[k])
        return t


def compare(base, cur):
    """None if no difference can be shown, else text. base, cur: formulas."""
    if base == cur:
        return None
    A, B = atoms(base), atoms(cur)
    new, gone = B - A, A - B
    if new and gone:
        lit = [[x for x in z if x.startswith(('for [', 'for ('))] for z in (gone, new)]
        if len(new) == len(gone) == len(lit[0]) == len(lit[1]) == 1:
            return f'it is done for other cases: "{lit[0][0][4:]}" has become "{lit[1][0][4:]}"'[:220]
        zero = [y for y in new if y + ' is None' in gone and NUMERIC.search(y)]
        if zero:
            return 'a zero is taken for absence: ' + ', '.join(sorted(zero))[:200]
        # one test replaced by another which differs in a constant only
        pairs = [(x, y) for x in gone for y in new if skeleton(x) == skeleton(y)]
        if len(pairs) == len(new) == len(gone) and all(depends(cur, y) for _, y in pairs):
            return 'the test ' + '; '.join(f'"{x}" has become "{y}"' for x, y in sorted(pairs))[:200]
        return None
    d = differ(base, cur)
    if d is None:
        return None
    if new:
        return 'it depends on a further condition: ' + '; '.join(sorted(x for x in new if depends(cur, x)))[:200]
    if gone:
        return 'it no longer depends on: ' + '; '.join(sorted(x for x in gone if depends(base, x)))[:200]
    return 'it differs, for instance, when ' + ', '.join(('' if v else 'not ') + '(' + a + ')' for a, v in sorted(d.items()))[:200]
