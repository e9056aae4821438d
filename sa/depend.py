"""What each function's outcome depends on, and what it modifies: flow-sensitive dependence and alias analysis, composed over calls.

For every function, `summary` gives
  outs  : {output: {(input, kind)}}  input = a parameter; kind 'd' (value flows) or 'c' (decides which value or whether)
          outputs: 'return', 'raise', '@attr' (an attribute stored, on an object which outlives the call), 'mut:p' (argument p modified in place),
          'effect' (anything else with an effect: files, other objects)
  mut   : {root: (Fn, node)}  roots ('p', 'p.attr') whose elements are modified in place, with where
  ret   : roots the returned value may share memory with
  keep  : {attr: roots} roots which attributes of self may share memory with after the call
"""

import ast
import os

from .flow import Flow, Resolver, bind_args, pins

E = frozenset()
FILE = '<file>'
OPENERS = {'open', 'File', 'ZipFile', 'ExcelWriter', 'urlopen', 'Dataset'}
LOGS = ('log', 'logging', 'warnings')
INPLACE = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'reverse', 'fill', 'resize', 'put', 'setdefault', 'itemset', 'add',
           'discard', 'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'setfield', 'partition', 'byteswap'}
VIEW_M = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'get', 'items', 'values', 'setdefault', 'pop', 'diagonal', 'getroot', 'find', 'findall', 'iter', 'iterchildren', 'getchildren',
          'getparent'}
VIEW_A = {'T', 'flat', 'real', 'imag', 'data', 'mask', 'base'}
VIEW_F = {'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes',
          'moveaxis', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rollaxis', 'broadcast_to', 'split', 'array_split', 'rot90', 'frombuffer', 'stack_view'}
ELEM_F = {'list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'next', 'dict', 'filter', 'map', 'frozenset'}
MUT_F = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'shuffle': 0, 'heappush': 0, 'heappop': 0, 'heapify': 0, 'insort': 0,
         'put_along_axis': 0}
UFUNC_AT = {'add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum', 'logical_or', 'logical_and'}
EFFECT_F = {'print', 'remove', 'rename', 'makedirs', 'mkdir', 'system', 'write', 'savetxt', 'save', 'to_csv', 'tofile', 'dump', 'copyfile', 'copy2',
            'unlink', 'rmtree', 'replace_file', 'seed', 'close'}
DECIDE = {'min', 'max', 'minimum', 'maximum', 'clip', 'where', 'select', 'choose'}
SCALAR_F = {'len', 'int', 'float', 'bool', 'str', 'sum', 'max', 'min', 'abs', 'any', 'all', 'isinstance', 'type', 'id', 'hash', 'repr', 'round', 'range'}


class Val:
    __slots__ = ('deps', 'roots', 'elems', 'parts', 'nil')

    def __init__(self, deps=E, roots=E, elems=E, parts=None, nil=False):
        self.deps, self.roots, self.elems, self.parts, self.nil = deps, roots, elems, parts, nil

    def join(self, o):
        if o is self:
            return self
        ps = None
        if self.parts is not None and o.parts is not None and len(self.parts) == len(o.parts):
            ps = tuple(a.join(b) for a, b in zip(self.parts, o.parts))
        return Val(jdeps(self.deps, o.deps, self.nil, o.nil), self.roots | o.roots, self.elems | o.elems, ps, self.nil and o.nil)

    def plus(self, deps):
        if deps <= self.deps and self.parts is None:
            return self
        return Val(self.deps | deps, self.roots, self.elems, None if self.parts is None else tuple(x.plus(deps) for x in self.parts), self.nil)

    def elem(self):
        r = self.roots | self.elems
        return Val(self.deps, r, r)

    def __eq__(self, o):
        return self.deps == o.deps and self.nil == o.nil and self.roots == o.roots and self.elems == o.elems and self.parts == o.parts

    __hash__ = None


NONE = Val()
NIL = Val(nil=True)       # None, or an empty container: stands for 'no answer'


def jdeps(a, b, na=False, nb=False):
    """dependences of a value which is one or the other: 'm' (on every path) only where in both."""
    if a == b:
        return a
    u = a | b
    drop = set()
    for x in u:
        if x[1] == 'm' and not ((x in a or na) and (x in b or nb)):
            drop.add(x)
    return u - drop if drop else u


def ctl(deps):
    return frozenset((p, 'c') for p, _ in deps)


def may(deps):
    return frozenset(x for x in deps if x[1] != 'm')


def dat(deps):
    return frozenset((p, 'd') for p, _ in deps)


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k].join(v) if k in out else v
    return out


def after_loop(env, out):
    """as join_env, but a loop body is taken to be executed where it makes something depend on an input."""
    if env is None or out is None:
        return join_env(env, out)
    new = join_env(env, out)
    for k, v in out.items():
        if k in env:
            ms = frozenset(x for x in v.deps if x[1] == 'm')
            if ms:
                new[k] = Val(new[k].deps | ms, new[k].roots, new[k].elems, new[k].parts, new[k].nil)
    return new


def sccs(graph):
    """strongly connected components, callees first."""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in sorted(graph):
        if root in idx:
            continue
        work = [(root, iter(graph[root]))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in graph:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(graph[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


class Sum:

    def __init__(self):
        self.outs = {}
        self.rnil = True
        self.mut = {}
        self.ret = E
        self.retel = E
        self.parts = []       # of each value returned, its components
        self.keep = {}
        self.share = set()    # (attr, root): some object's attribute assigned data it shares with root
        self.stored = {}      # '@attr' -> (fn, node)

    def out(self, o, deps, nil=False):
        if o == 'return':
            if o in self.outs:
                self.outs[o] = jdeps(self.outs[o], deps, self.rnil, nil)
                self.rnil = self.rnil and nil
            else:
                self.outs[o] = deps
                self.rnil = nil
        else:
            self.outs[o] = self.outs.get(o, E) | may(deps)


class Depend:

    def __init__(self, repo, resolver=None):
        self.repo = repo
        self.res = resolver or Resolver(repo)
        self.memo = {}
        self.callees = {}
        self.arrayish = {}
        self.flows = {}

    def flow(self, f):
        if f.qual not in self.flows:
            self.flows[f.qual] = Flow(f, self.repo)
        return self.flows[f.qual]

    def callee(self, f, call):
        k = id(call)
        if k not in self.callees:
            self.callees[k] = self.res.callee(f, call)
        return self.callees[k]

    def solve(self):
        """summaries of all functions, callees first; those which call each other in a cycle are repeated until nothing changes."""
        fns = [f for f in self.repo.all_fns() if f.parent is None]
        graph = {}
        for f in fns:
            out = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    r = self.callee(f, n)
                    if r is not None and r[0].parent is None:
                        out.append(r[0].qual)
            graph[f.qual] = sorted(set(out))
        by = {f.qual: f for f in fns}
        for comp in sccs(graph):
            comp = sorted(comp)
            loop = len(comp) > 1 or comp[0] in graph.get(comp[0], ())
            for q in comp:
                self.memo.setdefault(q, Sum())
            for _ in range(8 if loop else 1):
                old = [edges(self.memo[q]) for q in comp]
                for q in comp:
                    if q in by:
                        self.memo[q] = Run(self, by[q]).go()
                if not loop or old == [edges(self.memo[q]) for q in comp]:
                    break
        self.graph = graph
        return self

    def summary(self, f):
        if f.qual not in self.memo:
            return None
        return self.memo[f.qual]

    def is_arrayish(self, f, p):
        """is parameter p of f known to be an array or other container (so that p += x modifies the caller's)?"""
        k = (f.qual, p)
        if k not in self.arrayish:
            import re
            m = re.search(r'^\s*[-*]?\s*%s\s*[(:]([^\n]*)' % re.escape(p), f.doc(), re.M)
            t = m.group(1) if m else ''
            for a in f.node.args.args + f.node.args.kwonlyargs:
                if a.arg == p and a.annotation is not None:
                    t += ' ' + ast.unparse(a.annotation)
            yes = bool(re.search(r'array|ndarray|numpy|triple|\blist\b|List|\bdict|\bset of', t.split(':')[0] if m else t))
            if not yes:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in (
                            'shape', 'ndim', 'size', 'reshape', 'flatten', 'dtype', 'append', 'T'):
                        yes = True
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p and isinstance(n.slice, (ast.Slice, ast.Tuple)):
                        yes = True
            self.arrayish[k] = yes
        return self.arrayish[k]


class Run:

    def __init__(self, D, f, closure=None, pc=E):
        self.D, self.f = D, f
        self.s = Sum()
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in (a.vararg, a.kwarg):
            if x:
                ps.append(x.arg)
        self.params = ps
        self.env = dict(closure or {})
        for p in ps:
            self.env[p] = Val(frozenset({(p, 'd'), (p, 'm')}), frozenset({p}), frozenset({p}))
        self.pc = pc
        self.selfname = ps[0] if f.cls is not None and f.kind == 'method' and ps else None
        self.nested = {}
        self.globs = set()
        self.loops = []
        self.left = []      # depths of the loops which statements jumped out of (0: the function)
        self.depth = 0
        self.alias = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            self._alias(a, b)
                    else:
                        self._alias(t, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self._alias(n.target, n.iter)

    def _alias(self, t, src):
        for b in _view_bases(src):
            if b not in self.params:
                for n, _ in _names(t):
                    if n != b:
                        self.alias.setdefault(n, set()).add(b)

    # ---------------------------------------------------------------- driving
    def go(self):
        end = self.block(self.f.node.body, self.env)
        ps = self.s.parts
        if ps and all(x is not None and len(x) == len(ps[0]) for x in ps):
            out = ps[0]
            for x in ps[1:]:
                out = tuple(a.join(b) for a, b in zip(out, x))
            self.s.parts = out
        else:
            self.s.parts = None
        if end is not None:
            self.finish(end)
        return self.s

    def finish(self, env):
        pre = (self.selfname or '') + '.'
        for k, v in env.items():
            if self.selfname and k.startswith(pre) and k.count('.') == 1:
                r = frozenset(x for x in v.roots | v.elems if x in self.params)
                if r:
                    self.s.keep[k[len(pre):]] = self.s.keep.get(k[len(pre):], E) | r
            b = k.split('.')
            if len(b) == 2 and b[0] in self.params and '@' + b[1] in self.s.outs:
                self.s.out('@' + b[1], v.deps)

    def block(self, body, env):
        """env after the statements, or None when the end is not reached."""
        pc0 = self.pc
        for st in body:
            if env is None:
                break
            env = self.stmt(st, env)
        self.pc_after = self.pc
        self.pc = pc0 if False else self.pc
        return env

    def branch(self, body, env, deps, pin=E):
        pc = self.pc
        self.pc = pc | ctl(deps) | pin
        out = self.block(body, dict(env))
        inner = self.pc
        self.pc = pc
        return out, inner

    # ---------------------------------------------------------------- statements
    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is not None:
            return m(st, env)
        for n in ast.iter_child_nodes(st):
            if isinstance(n, ast.expr):
                self.ev(n, env)
        return env

    def s_Expr(self, st, env):
        self.ev(st.value, env)
        return env

    def s_FunctionDef(self, st, env):
        self.nested[st.name] = st
        env = dict(env)
        names = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and n.id in env}
        deps = frozenset().union(*[env[n].deps for n in names]) if names else E
        env[st.name] = Val(deps)
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        if env is None:
            return env
        for t in st.targets:
            env = self.assign(t, v, env, st.value)
        return env

    def s_AnnAssign(self, st, env):
        if st.value is None:
            return env
        return self.assign(st.target, self.ev(st.value, env), env, st.value)

    def s_AugAssign(self, st, env):
        v = self.ev(st.value, env)
        t = st.target
        old = self.ev(_load(t), env)
        if isinstance(t, ast.Name):
            new = Val(old.deps | v.deps | self.pc, old.roots, old.elems)
            for r in old.roots:
                if self.inplace_root(r):
                    self.mutate(Val(E, frozenset({r})), v.deps, st)
            env = dict(env)
            env[t.id] = new
            return env
        if isinstance(t, ast.Subscript):
            return self.assign(t, v, env)
        return self.assign(t, old.join(v), env, None, True)

    def inplace_root(self, r):
        if r in self.params:
            return self.D.is_arrayish(self.f, r)
        return '.' in r

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, env)
                i = self.ev(t.slice, env)
                self.mutate(b, i.deps, st)
                env = self.weak(t.value, i.deps | self.pc, env)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env)
                self.store_attr(t, b, E, st)
        return env

    def assign(self, t, v, env, src=None, aug=False):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                vs = [self.ev(x, env) for x in src.elts]
                for a, b in zip(t.elts, vs):
                    env = self.assign(a, b, env)
            elif v.parts is not None and len(v.parts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for a, b in zip(t.elts, v.parts):
                    env = self.assign(a, b, env)
            else:
                e = v.elem()
                for a in t.elts:
                    env = self.assign(a, e, env)
            return env
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, env)
        if isinstance(t, ast.Name):
            env = dict(env)
            if t.id in self.globs:
                self.s.out('effect', v.deps | self.pc)
            env[t.id] = v.plus(self.pc)
            for k in [k for k in env if k.startswith(t.id + '.')]:
                del env[k]
            return env
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            k = key(t)
            env = dict(env)
            if k is not None:
                env[k] = v.plus(self.pc)
            self.store_attr(t, b, v.deps, t)
            for r in v.roots:
                if r.count('.') <= 1 and r.split('.')[0] in self.params and r not in {f'{x}.{t.attr}' for x in b.roots}:
                    self.s.share.add((t.attr, r))
            return self.weak(t.value, v.deps | self.pc, env) if not (isinstance(t.value, ast.Name) and t.value.id in self.params) else env
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            self.mutate(b, v.deps | may(i.deps), t)
            return self.weak(t.value, v.deps | may(i.deps) | self.pc, env, v.roots)
        return env

    def store_attr(self, t, b, deps, node):
        if b.roots or (isinstance(t.value, ast.Name) and t.value.id == self.selfname):
            self.s.out('@' + t.attr, deps | self.pc)
            self.s.stored.setdefault('@' + t.attr, set()).update(r.split('.')[0] for r in b.roots)

    def weak(self, e, deps, env, elems=E):
        """the object e evaluates to now also holds something with these dependences."""
        k = None
        x = e
        while True:
            k = key(x)
            if k is not None or not isinstance(x, (ast.Subscript, ast.Attribute, ast.Call)):
                break
            x = x.func if isinstance(x, ast.Call) else x.value
        if k is None:
            return env
        env = dict(env)
        cur = env.get(k)
        if cur is None:
            cur = self.ev(x, env)
        env[k] = Val(cur.deps | deps, cur.roots, cur.elems | elems if x is e else cur.elems)
        for a in self.aliases(k.split('.')[0]):
            if a in env:
                env[a] = env[a].plus(deps)
        if '.' in k:
            b = k.split('.')[0]
            if b in env and b not in self.params:
                env[b] = env[b].plus(deps)
        return env

    def aliases(self, k):
        out, todo = set(), [k]
        while todo:
            for a in self.alias.get(todo.pop(), ()):
                if a not in out and a != k:
                    out.add(a)
                    todo.append(a)
        return out

    def mutate(self, v, deps, node, fn=None):
        for r in v.roots:
            if r == FILE:
                self.s.out('effect', deps | v.deps | self.pc)
                continue
            self.s.mut.setdefault(r, (fn or self.f, node))
            if '.' in r:
                self.s.out('@' + r.rsplit('.', 1)[1], deps | self.pc)
            else:
                self.s.out('mut:' + r, deps | self.pc)

    def s_Return(self, st, env):
        if st.value is not None:
            v = self.ev(st.value, env)
            self.s.out('return', v.deps | self.pc, v.nil)
            self.s.ret |= v.roots
            self.s.retel |= v.elems
            if not (isinstance(st.value, ast.Constant) and st.value.value is None):
                ps = None if v.parts is None else tuple(x.plus(self.pc) for x in v.parts)
                self.s.parts.append(ps)
        else:
            self.s.out('return', self.pc, True)
        self.finish(env)
        self.left.append(0)
        return None

    def s_Raise(self, st, env):
        d = self.ev(st.exc, env).deps if st.exc is not None else E
        self.s.out('raise', ctl(d) | self.pc if False else self.pc)
        return None

    def s_Assert(self, st, env):
        v = self.ev(st.test, env)
        self.s.out('raise', ctl(v.deps) | self.pc)
        if isinstance(st.test, ast.Constant) and not st.test.value:
            return None
        self.pc = self.pc | self.pin(st.test, True)
        return env

    def s_If(self, st, env):
        k, neg = st.test, False
        while isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.Not):
            k, neg = k.operand, not neg
        if isinstance(k, ast.Constant):
            return self.block(st.body if bool(k.value) != neg else st.orelse, env)
        c = self.ev(st.test, env)
        pa, pb = self.pin(st.test, True), self.pin(st.test, False)
        nleft = len(self.left)
        a, ia = self.branch(st.body, env, c.deps, pa)
        b, ib = self.branch(st.orelse, env, c.deps, pb)
        if (a is None) != (b is None):
            live = ib if a is None else ia
            only_raise = _only_raises(st.body if a is None else st.orelse)
            if not only_raise:
                self.pc = self.pc | live
            else:
                self.pc = self.pc | (pb if a is None else pa)
        elif a is not None and b is not None:
            # anything added by leaving deeper inside either branch
            extra = may((ia | ib) - ctl(c.deps) - self.pc)
            if any(x <= len(self.loops) for x in self.left[nleft:]):
                extra |= ctl(c.deps)
            extra |= frozenset(x for x in ia & ib if x[1] == 'm')
            self.pc = self.pc | extra
        if pa and a is not None:
            a = {k: v.plus(pa) if env.get(k) is not v else v for k, v in a.items()}
        if pb and b is not None:
            b = {k: v.plus(pb) if env.get(k) is not v else v for k, v in b.items()}
        if a is not None and b is not None and (pa or pb):
            # a name left alone where the input is known
            for mine, other, pn in ((a, b, pa), (b, a, pb)):
                for k, v in other.items():
                    if pn and k in mine and mine[k] is env.get(k) and v is not env.get(k):
                        mine[k] = mine[k].plus(pn)
        return join_env(a, b)

    def loop(self, st, env, head):
        pc = self.pc
        for _ in range(3):
            e = dict(env)
            e, deps = head(e)
            self.pc = pc | deps
            self.loops.append([None, None])
            out = self.block(st.body, dict(e))
            brk, cont = self.loops.pop()
            new = after_loop(env, join_env(out, cont))
            self.pc = pc
            if new == env:
                break
            env = new
        e, deps = head(dict(env))
        out = self.block(st.orelse, e) if st.orelse else e
        self.pc = pc
        return join_env(out, brk)

    def s_For(self, st, env):

        def head(e):
            it = self.ev(st.iter, e)
            d = dat(it.deps)
            return self.assign(st.target, it.elem(), e), d

        return self.loop(st, env, head)

    s_AsyncFor = s_For

    def s_While(self, st, env):

        def head(e):
            return e, dat(self.ev(st.test, e).deps)

        return self.loop(st, env, head)

    def s_Break(self, st, env):
        if self.loops:
            self.left.append(len(self.loops))
            self.loops[-1][0] = join_env(self.loops[-1][0], {k: v.plus(E) for k, v in env.items()})
        return None

    def s_Continue(self, st, env):
        if self.loops:
            self.left.append(len(self.loops))
            self.loops[-1][1] = join_env(self.loops[-1][1], env)
        return None

    def s_Try(self, st, env):
        pc = self.pc
        a = self.block(st.body, dict(env))
        start = join_env(env, a)
        outs = self.block(st.orelse, a) if a is not None else None
        for h in st.handlers:
            e = dict(start)
            if h.name:
                e[h.name] = NONE
            outs = join_env(outs, self.block(h.body, e))
        if st.finalbody:
            self.pc = pc
            f = self.block(st.finalbody, dict(outs if outs is not None else start))
            outs = f if outs is not None else None
        return outs

    s_TryStar = s_Try

    def s_With(self, st, env):
        ctx = E
        for i in st.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                env = self.assign(i.optional_vars, v, env)
            else:
                ctx |= dat(v.deps)
        pc = self.pc
        self.pc = pc | ctx
        env = self.block(st.body, env)
        self.pc = self.pc - (ctx - pc)
        return env

    s_AsyncWith = s_With

    def s_Match(self, st, env):
        v = self.ev(st.subject, env)
        out = env
        for c in st.cases:
            e = dict(env)
            for n in ast.walk(c.pattern):
                nm = getattr(n, 'name', None)
                if nm:
                    e[nm] = v
            b, _ = self.branch(c.body, e, v.deps)
            out = join_env(out, b)
        return out

    def s_Global(self, st, env):
        self.globs |= set(st.names)
        return env

    s_Nonlocal = s_Global

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        deps = E
        for n in ast.iter_child_nodes(e):
            if isinstance(n, (ast.expr, ast.keyword, ast.comprehension, ast.FormattedValue)):
                deps |= self.ev(n, env).deps
        return Val(deps)

    def e_Constant(self, e, env):
        return NIL if e.value is None else NONE

    def e_Name(self, e, env):
        return env.get(e.id, NONE)

    def e_Attribute(self, e, env):
        k = key(e)
        if k is not None and k in env:
            return env[k]
        b = self.ev(e.value, env)
        if e.attr in VIEW_A:
            return b
        if e.attr in ('shape', 'size', 'ndim', 'dtype'):
            return Val(b.deps)
        if k is not None and k.split('.')[0] in self.params and k.count('.') <= 3:
            r = frozenset({k})
        else:
            r = frozenset(_dot(x, e.attr) for x in b.roots)
            if not b.roots:
                r = b.elems
        return Val(b.deps, r, r)

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        v = b.elem() if not isinstance(e.slice, (ast.Compare, ast.List)) else Val(b.deps)
        return Val(v.deps | i.deps, v.roots, v.elems)

    def e_Slice(self, e, env):
        d = E
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                d |= self.ev(x, env).deps
        return Val(d)

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_keyword(self, e, env):
        return self.ev(e.value, env)

    def _seq(self, e, env):
        d, r, ps = E, E, []
        for x in e.elts:
            v = self.ev(x, env)
            d |= v.deps
            r |= v.roots
            ps.append(v)
        if not e.elts:
            return NIL
        star = isinstance(e, ast.Set) or any(isinstance(x, ast.Starred) for x in e.elts) or not 2 <= len(ps) <= 12
        return Val(d, E, r, None if star or isinstance(e, ast.List) else tuple(ps))

    e_Tuple = e_List = e_Set = _seq

    def e_Dict(self, e, env):
        d, r = E, E
        for x in list(e.keys) + list(e.values):
            if x is not None:
                v = self.ev(x, env)
                d |= v.deps
                r |= v.roots
        return Val(d, E, r) if e.keys else NIL

    def e_IfExp(self, e, env):
        c = self.ev(e.test, env)
        pc = self.pc
        pa, pb = self.pin(e.test, True), self.pin(e.test, False)
        self.pc = pc | ctl(c.deps) | pa
        a = self.ev(e.body, env).plus(pa)
        self.pc = pc | ctl(c.deps) | pb
        b = self.ev(e.orelse, env).plus(pb)
        self.pc = pc
        return a.join(b).plus(ctl(c.deps))

    def pin(self, test, pol):
        return frozenset((p, 'm') for p in pins(test, pol, self.f, self.D.flow(self.f)) if p[0] != '@')

    def e_BoolOp(self, e, env):
        pc = self.pc
        vs = []
        for x in e.values:
            vs.append(self.ev(x, env))
            self.pc = self.pc | ctl(vs[-1].deps)
        self.pc = pc
        v = vs[0]
        for x in vs[1:]:
            v = v.join(x)
        c = E
        for x in vs[:-1]:
            c |= ctl(x.deps)
        return v.plus(c)

    def e_Compare(self, e, env):
        d = self.ev(e.left, env).deps
        for x in e.comparators:
            d |= self.ev(x, env).deps
        return Val(ctl(d))

    def e_UnaryOp(self, e, env):
        d = self.ev(e.operand, env).deps
        return Val(ctl(d) if isinstance(e.op, (ast.Not, ast.Invert)) else d)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v.plus(self.pc)
        return v

    def e_Lambda(self, e, env):
        own = {a.arg for a in e.args.args}
        d = E
        for n in ast.walk(e.body):
            if isinstance(n, ast.Name) and n.id in env and n.id not in own:
                d |= env[n.id].deps
        return Val(d)

    def _comp(self, e, env, parts):
        env = dict(env)
        d = E
        for g in e.generators:
            it = self.ev(g.iter, env)
            for n, v in _names(g.target):
                env[n] = it.elem()
            d |= dat(it.deps)
            for c in g.ifs:
                d |= ctl(self.ev(c, env).deps)
        r = E
        for p in parts:
            v = self.ev(p, env)
            d |= v.deps
            r |= v.roots
        return Val(d, E, r)

    def e_ListComp(self, e, env):
        return self._comp(e, env, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self._comp(e, env, [e.key, e.value])

    def e_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env)
            self.s.out('return', v.deps | self.pc)
        return NONE

    e_YieldFrom = e_Yield

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env):
        fn = e.func
        base = fn
        while isinstance(base, ast.Attribute):
            base = base.value
        if isinstance(base, ast.Name) and base.id in LOGS and base.id not in env:
            return NONE
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
        args = [self.ev(x, env) for x in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg is not None}
        star = [self.ev(k.value, env) for k in e.keywords if k.arg is None]
        deps = E
        for v in list(args) + list(kws.values()) + star:
            deps |= v.deps
        if isinstance(fn, ast.Name) and fn.id in ('locals', 'vars') and not args:
            d = frozenset((p, 'd') for p in self.params)
            return Val(d)
        if isinstance(fn, ast.Name) and fn.id in self.nested:
            return self.call_nested(self.nested[fn.id], e, args, kws, env, deps)
        r = None
        if self.depth == 0 or True:
            r = self.D.callee(self.f, e)
        if r is not None:
            g, bound = r
            return self.call_known(g, bound, e, args, kws, star, env, deps)
        # keyword arguments known to name in-place results
        for k in ('out',):
            if k in kws:
                self.mutate(kws[k], deps, e)
                for kw in e.keywords:
                    if kw.arg == k:
                        self.update_env(kw.value, deps | self.pc, env)
        if isinstance(fn, ast.Attribute):
            ext = isinstance(base, ast.Name) and base.id not in env and base.id not in self.params
            if ext:
                return self.call_ext(nm, e, args, kws, deps, env)
            b = self.ev(fn.value, env)
            if nm in INPLACE:
                self.mutate(b, deps, e)
                els = E
                for a in args:
                    els |= a.roots
                self.update_env(fn.value, deps | self.pc, env, els)
            elif b.roots and not _pure_method(nm):
                self.s.out('effect', deps | b.deps | self.pc)
            elif not _pure_method(nm):
                # something local: it may now hold the arguments
                self.update_env(fn.value, deps | self.pc, env)
                if any(isinstance(n, ast.Call) for n in ast.walk(fn.value)) or _file_like(nm):
                    self.s.out('effect', deps | b.deps | self.pc)
            if nm in VIEW_M or (nm == 'astype' and any(k.arg == 'copy' for k in e.keywords)):
                x = b.elem() if nm in ('get', 'items', 'values', 'setdefault', 'pop') else b
                return Val(x.deps | deps, x.roots, x.elems)
            return Val(b.deps | deps)
        if isinstance(fn, ast.Name):
            return self.call_ext(nm, e, args, kws, deps, env, fn.id in env and env[fn.id] or None)
        b = self.ev(fn, env)
        self.s.out('effect', deps | b.deps | self.pc)
        return Val(b.deps | deps)

    def call_ext(self, nm, e, args, kws, deps, env, local=None):
        if local is not None:
            deps = deps | local.deps
            self.s.out('effect', deps | self.pc)
            return Val(deps)
        if nm in MUT_F and args:
            self.mutate(args[MUT_F[nm]], deps, e)
            self.update_env(e.args[MUT_F[nm]], deps | self.pc, env)
        if nm == 'at' and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Attribute) and e.func.value.attr in UFUNC_AT and args:
            self.mutate(args[0], deps, e)
            self.update_env(e.args[0], deps | self.pc, env)
        if nm == 'nan_to_num' and args and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
            self.mutate(args[0], deps, e)
        if nm in ('setattr', 'delattr') and len(args) > 1:
            a = e.args[1]
            self.s.out('@' + a.value if isinstance(a, ast.Constant) else 'effect', deps | self.pc)
            return NONE
        if nm in OPENERS:
            return Val(deps, frozenset({FILE}), frozenset({FILE}))
        b = e.func
        while isinstance(b, ast.Attribute):
            b = b.value
        if nm in EFFECT_F or (isinstance(b, ast.Name) and b.id in ('os', 'shutil') and 'path' not in ast.unparse(e.func)):
            self.s.out('effect', deps | self.pc)
        if nm == 'SubElement' and args:
            self.update_env(e.args[0], deps | self.pc, env)
            self.mutate(args[0], deps, e)
            return Val(deps, args[0].roots, args[0].elems)
        if nm in VIEW_F and args:
            return Val(deps, args[0].roots, args[0].elems)
        if nm == 'array' and args and any(k.arg == 'copy' for k in e.keywords):
            return Val(deps, args[0].roots, args[0].elems)
        if nm in DECIDE and args:
            deps = deps | ctl(args[0].deps if nm in ('where', 'select', 'choose') else deps)
        if nm in ('bool', 'isinstance', 'logical_not', 'isnan', 'all', 'any', 'logical_and', 'logical_or', 'isclose', 'allclose', 'array_equal'):
            return Val(ctl(deps))
        if nm in ('range', 'arange', 'ndindex'):
            return Val(may(deps))
        if nm in ELEM_F:
            el = E
            for a in args:
                el |= a.elems | (a.roots if nm in ('enumerate', 'zip', 'iter', 'next', 'reversed', 'filter', 'map') else E)
            return Val(deps, E, el)
        return Val(deps)

    def update_env(self, e, deps, env, els=E):
        """in place: expressions are evaluated against a mutable environment."""
        new = self.weak(e, deps, env, els)
        if new is not env:
            env.update(new)

    def touch(self, x, deps, env):
        if x is not None and key(x) not in self.params:
            self.update_env(x, deps | self.pc, env)

    def call_nested(self, node, e, args, kws, env, deps):
        if self.depth > 3:
            return Val(deps | env.get(node.name, NONE).deps)
        # run the body in the current environment
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        inner = dict(env)
        dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        for p in ps:
            inner[p] = self.ev(dflt[p], env) if p in dflt else Val(deps)
        for p, v in zip(ps, args):
            inner[p] = v
        for k, v in kws.items():
            inner[k] = v
        own = set(ps)
        sav = (self.s.outs.get('return'), self.s.ret, self.s.retel, self.pc, self.loops, self.s.parts, self.s.rnil, self.left)
        self.s.parts, self.s.rnil, self.left = [], True, []
        self.s.outs.pop('return', None)
        self.s.ret, self.s.retel, self.loops = E, E, []
        self.depth += 1
        end = self.block(node.body, inner)
        self.depth -= 1
        rd = self.s.outs.pop('return', E)
        v = Val(rd, self.s.ret, self.s.retel)
        if sav[0] is not None:
            self.s.outs['return'] = sav[0]
        self.s.ret, self.s.retel, self.pc, self.loops, self.s.parts, self.s.rnil, self.left = sav[1:]
        nonl = {x for n in ast.walk(node) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
        stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if end is not None:
            for k in env:
                if k in end and k not in own and (k not in stored or k in nonl):
                    env[k] = env[k].join(end[k])
        else:
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and n.id in env and n.id not in own and n.id not in stored and self._mutated_in(node, n.id):
                    env[n.id] = env[n.id].plus(deps)
        return v

    @staticmethod
    def _mutated_in(node, name):
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == name:
                return True
        return False

    def call_known(self, g, bound, e, args, kws, star, env, deps):
        fn = e.func
        recv = NONE
        if bound and isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.selfname:
                recv = env.get(self.selfname, NONE)
            else:
                recv = self.ev(fn.value, env)
        ctor = g.name == '__init__' and not (isinstance(fn, ast.Attribute) and fn.attr == '__init__')
        s = self.D.summary(g)
        if s is None:
            # not analysed: everything may depend on everything
            self.s.out('effect', deps | recv.deps | self.pc)
            return Val(deps | recv.deps)
        m, _ = bind_args(g, e, bound, None)
        ga = g.node.args
        gnames = {x.arg for x in ga.posonlyargs + ga.args + ga.kwonlyargs}
        vals, exprs = {}, {}
        for q, x in m.items():
            if q in gnames:
                vals[q] = self.ev(x, env)
                exprs[q] = x
        if ga.vararg or ga.kwarg:
            npos = len(ga.posonlyargs + ga.args) - (1 if bound else 0)
            extra = NONE
            for i, v in enumerate(args):
                if i >= npos or isinstance(e.args[i], ast.Starred):
                    extra = Val(extra.deps | v.deps, E, extra.elems | v.roots | v.elems)
            if ga.vararg:
                vals[ga.vararg.arg] = extra
            if ga.kwarg:
                kx = NONE
                for k, v in kws.items():
                    if k not in gnames:
                        kx = Val(kx.deps | v.deps, E, kx.elems | v.roots | v.elems)
                for v in star:
                    kx = Val(kx.deps | v.deps, E, kx.elems | v.roots | v.elems)
                vals[ga.kwarg.arg] = kx
        if star or any(isinstance(x, ast.Starred) for x in e.args):
            sd, se = E, E
            for v in star + [v for v, x in zip(args, e.args) if isinstance(x, ast.Starred)]:
                sd |= v.deps
                se |= v.roots | v.elems
            for q in gnames:
                if q not in vals and not (bound and ga.args and q == (ga.posonlyargs + ga.args)[0].arg):
                    vals[q] = Val(sd, se, se)
        gp = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if bound and gp:
            vals[gp[0]] = NONE if ctor else recv
            if not ctor and isinstance(fn, ast.Attribute):
                exprs[gp[0]] = fn.value

        def tr(ds):
            out = E
            for q, k in ds:
                v = vals.get(q)
                if v is not None:
                    out |= may(v.deps) if k == 'd' else ctl(v.deps) if k == 'c' else frozenset(x for x in v.deps if x[1] == 'm')
            return out

        isself = bound and not ctor and recv.roots == frozenset({self.selfname}) and self.selfname is not None
        made = E
        for o, ds in s.outs.items():
            if o == 'return':
                continue
            t = tr(ds)
            if o == 'raise':
                self.s.out('raise', t | self.pc)
            elif o == 'effect':
                self.s.out('effect', t | self.pc)
            elif o[0] == '@':
                if ctor:
                    made |= t
                elif isself or recv.roots or not bound:
                    self.s.out(o, t | self.pc)
                else:
                    made |= t
                    if recv.elems:
                        self.s.out('effect', t | self.pc)
            elif o.startswith('mut:'):
                q = o[4:]
                if q in exprs:
                    self.update_env(exprs[q], t | self.pc, env)
        for r, w in s.mut.items():
            q, _, rest = r.partition('.')
            v = vals.get(q)
            if v is None:
                continue
            t = tr(s.outs.get('mut:' + r, E) if not rest else s.outs.get('@' + r.rsplit('.', 1)[1], E))
            if not rest:
                self.mutate(v, t, e)
            elif not ctor or q != gp[0]:
                self.mutate(Val(E, frozenset(_dot(x, rest) for x in v.roots)), t, e)
                if not v.roots and v.elems:
                    self.s.out('effect', t | self.pc)
                self.touch(exprs.get(q), t, env)
        for o, qs in s.stored.items():
            t = tr(s.outs.get(o, E))
            for q in qs:
                self.touch(exprs.get(q), t, env)
                rs = {r.split('.')[0] for r in vals[q].roots} if q in vals else set()
                if rs:
                    self.s.stored.setdefault(o, set()).update(rs)
        for at, r in s.share:
            q, _, rest = r.partition('.')
            if q in vals and not (ctor and rest and q == gp[0]):
                for x in vals[q].roots:
                    y = _dot(x, rest) if rest else x
                    if y.count('.') <= 1 and y.split('.')[0] in self.params:
                        self.s.share.add((at, y))
        if ctor:
            els = E
            for at, rs in s.keep.items():
                for q in rs:
                    els |= vals[q].roots if q in vals else E
            d = made
            # what is kept in the object, however it is kept
            d |= deps
            return Val(d, E, els)
        if not isself and not recv.roots and made and isinstance(fn, ast.Attribute):
            self.update_env(fn.value, made | self.pc, env)
        if isself or recv.roots:
            for at, rs in s.keep.items():
                k = key(fn.value) if isinstance(fn, ast.Attribute) else None
                if isinstance(fn, ast.Attribute) and k == self.selfname:
                    v = NONE
                    for q in rs:
                        if q in vals:
                            v = v.join(vals[q])
                    if v.roots:
                        env[f'{k}.{at}'] = env.get(f'{k}.{at}', NONE).join(Val(v.deps, v.roots))
        rt, re_ = E, E
        for src, tgt in ((s.ret, 0), (s.retel, 1)):
            out = E
            for r in src:
                q, _, rest = r.partition('.')
                v = vals.get(q)
                if v is None:
                    continue
                out |= v.roots if not rest else frozenset(_dot(x, rest) for x in v.roots)
            if tgt == 0:
                rt = out
            else:
                re_ = out
        ps = None
        if s.parts:

            def part(x):
                a, b = E, E
                for r in x.roots:
                    q, _, rest = r.partition('.')
                    v = vals.get(q)
                    if v is not None:
                        a |= v.roots if not rest else frozenset(_dot(y, rest) for y in v.roots)
                return Val(tr(x.deps), a, a, None, x.nil)

            ps = tuple(part(x) for x in s.parts)
        return Val(tr(s.outs.get('return', E)), rt, re_, ps, s.rnil and 'return' in s.outs)


def _dot(x, rest):
    for a in rest.split('.'):
        if x == FILE or x.count('.') >= 3:
            return x
        x = f'{x}.{a}'
    return x


def _load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _view_bases(e):
    if isinstance(e, ast.IfExp):
        return _view_bases(e.body) + _view_bases(e.orelse)
    if isinstance(e, ast.BoolOp):
        return [b for x in e.values for b in _view_bases(x)]
    b = _view_base(e)
    return [] if b is None else [b]


def _view_base(e):
    """name of the local object the value of e may be part of."""
    while True:
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            e = e.value
        elif isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if nm in ('SubElement', 'enumerate', 'zip', 'reversed') or nm in VIEW_F:
                if not e.args:
                    return None
                e = e.args[0]
            elif isinstance(e.func, ast.Attribute) and nm in VIEW_M:
                e = e.func.value
            else:
                return None
        else:
            return None


def _names(t):
    if isinstance(t, ast.Name):
        return [(t.id, t)]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for y in t.elts for x in _names(y)]
    if isinstance(t, ast.Starred):
        return _names(t.value)
    return []


def _only_raises(body):
    return bool(body) and isinstance(body[-1], ast.Raise) or (bool(body) and isinstance(body[-1], ast.Assert))


def _pure_method(nm):
    return nm in PURE


def _file_like(nm):
    return nm in EFFECT_F or nm in ('writelines', 'flush', 'write_to')


PURE = {'copy', 'astype', 'flatten', 'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'get', 'items', 'values', 'keys', 'upper', 'lower',
        'strip', 'split', 'rsplit', 'startswith', 'endswith', 'format', 'join', 'replace', 'find', 'rfind', 'index', 'count', 'sum', 'mean', 'min', 'max',
        'any', 'all', 'tolist', 'nonzero', 'argmin', 'argmax', 'item', 'lstrip', 'rstrip', 'isdigit', 'isalpha', 'encode', 'decode', 'dot', 'round',
        'std', 'cumsum', 'prod', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'repeat', 'clip', 'take', 'title', 'capitalize',
        'isnumeric', 'readline', 'iterrows', 'to_dict', 'diagonal', 'conj', 'trace', 'searchsorted', 'isupper', 'islower', 'group', 'groups'}


def key(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = key(e.value)
        return None if b is None else f'{b}.{e.attr}'
    return None


def edges(s, own=None):
    """{(output, input, kind)} of a summary, components of returned tuples included; attributes not in own count as effects elsewhere."""
    out = set()
    for o, ds in s.outs.items():
        if own is not None and o[0] == '@' and o[1:] not in own:
            o = 'effect'
        out |= {(o, p, k) for p, k in ds if o != 'effect' or k != 'm'}
    for i, v in enumerate(s.parts or ()):
        out |= {(f'return#{i}', p, k) for p, k in v.deps}
    return out


def own_attrs(repo, f, memo={}):
    """names of the attributes set on objects by the code f belongs to: its class (bases included) and the modules of its package."""
    def stores(node):
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                yield n.attr
    if f.cls is not None:
        k = f.cls.qual
        if k not in memo:
            memo[k] = {a for c in repo.mro(f.cls) for a in stores(c.node)}
        return memo[k]
    k = 'pkg ' + os.path.dirname(f.path)
    if k not in memo:
        memo[k] = {a for m in repo.mods.values() if os.path.dirname(m.path) == os.path.dirname(f.path) for a in stores(m.tree)}
    return memo[k]
