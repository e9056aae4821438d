"""Provenance dataflow: an abstract interpreter over the syntax tree with inlining of repository functions.

Nothing of the analysed program is executed.  Every expression is mapped to a Val: a set of *identity* atoms
(what the value may be) and a set of *dependency* atoms (what it was computed from).  Branches are joined, loops
over literal sequences are unrolled, calls to repository functions are inlined (bounded depth, recursion cut), so
facts do not depend on whether code sits in a helper, in which order independent statements come, or which loop
form is used.
"""

import ast
import re

from .repo import Repo, Fn, Cls, Mod, walk_own, AnalysisBroken

EMPTY = frozenset()


class Val:
    __slots__ = ('ids', 'deps', '_h')

    def __init__(self, ids=EMPTY, deps=EMPTY):
        self.ids = ids
        self.deps = deps
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Val) and self.ids == o.ids and self.deps == o.deps

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.ids, self.deps))
        return self._h

    def __repr__(self):
        return f'Val({set(self.ids)}|{set(self.deps)})'

    def all(self):
        return self.ids | self.deps

    def consts(self):
        return [a[1] for a in self.ids if a[0] == 'c']

    def only_consts(self):
        return bool(self.ids) and all(a[0] == 'c' for a in self.ids)

    def tags(self):
        """string constants this value may be."""
        return sorted({a[1] for a in self.ids if a[0] == 'c' and isinstance(a[1], str)})

    def flat(self):
        """all atoms, with tuple / dict displays opened."""
        out = set()
        st = list(self.ids | self.deps)
        while st:
            a = st.pop()
            if a in out:
                continue
            out.add(a)
            if a[0] == 'tup':
                for v in a[1]:
                    st.extend(v.all())
            elif a[0] == 'dict':
                for k, v in a[1]:
                    st.extend(k.all())
                    st.extend(v.all())
        return out


FIELD = re.compile(r'\{(\w*)(:[^{}]*)?\}')
NONE = Val(frozenset([('c', None)]))
BOT = Val()


def const(v):
    try:
        hash(v)
    except TypeError:
        return BOT
    # bool/int/float equality would merge 1 and True: keep the type
    return Val(frozenset([('c', v, type(v).__name__)]))


def join(*vs):
    vs = [v for v in vs if v is not None and (v.ids or v.deps)]
    if not vs:
        return BOT
    if len(vs) == 1:
        return vs[0]
    ids = frozenset().union(*(v.ids for v in vs))
    deps = frozenset().union(*(v.deps for v in vs))
    if len(ids) > 40:
        deps = deps | frozenset(a for a in ids if a[0] not in ('c', 'tup', 'dict'))
        ids = frozenset(list(sorted(ids, key=repr))[:40])
    return Val(ids, deps)


def fill(s, args, kw):
    """text with its replacement fields filled in, where known."""
    n = iter(range(len(args)))

    def one(m):
        k = m.group(1)
        v = kw.get(k) if k and not k.isdigit() else args[int(k) if k else next(n)]
        if v is not None and v.only_consts() and len(v.ids) == 1 and not m.group(2):
            return str(v.consts()[0])
        return '{}'
    return FIELD.sub(one, s)


def dep_only(*vs):
    out = set()
    for v in vs:
        if v is not None:
            for a in v.ids:
                if a[0] == 'tup':
                    for e in a[1]:
                        out |= dep_only(e).deps
                elif a[0] == 'dict':
                    for k, e in a[1]:
                        out |= dep_only(k).deps
                        out |= dep_only(e).deps
                elif a[0] not in ('c', 'ref', 'bm'):
                    out.add(a)
                elif a[0] == 'bm':
                    out.add(a[1])
            out |= v.deps
    return Val(EMPTY, frozenset(out))


def pretty(a):
    if a[0] == 'attr':
        return f'{pretty(a[1])}.{a[2]}'
    if a[0] == 'self':
        return 'self'
    if a[0] == 'param':
        return a[2]
    if a[0] == 'c':
        return repr(a[1])
    if a[0] == 'xr':
        return f'{pretty(a[1])}/{a[2]}'
    if a[0] == 'root':
        return '<root>' if a[1] == 'self' else f'<root of {a[1]}>'
    if a[0] == 'xv':
        return f'xml[{pretty(a[1])}:{a[2]}]'
    if a[0] == 'new':
        return f'new {a[2].rsplit(".", 1)[-1]}'
    return str(a)[:80]


class Event:
    __slots__ = ('kind', 'fn', 'node', 'data', 'ctrl', 'ctx')

    def __init__(self, kind, fn, node, data, ctrl, ctx):
        self.kind = kind
        self.fn = fn
        self.node = node
        self.data = data
        self.ctrl = ctrl
        self.ctx = ctx

    def where(self):
        return f'{self.fn.path}:{getattr(self.node, "lineno", 0)} ({self.fn.short})'


class XNode:
    """an xml element created by the analysed code."""
    __slots__ = ('site', 'tags', 'parents', 'texts', 'attribs', 'fn', 'node', 'ctrl', 'ctx')

    def __init__(self, site, fn, node, ctrl, ctx):
        self.site = site
        self.tags = set()
        self.parents = set()
        self.texts = []     # (Val, Event)
        self.attribs = {}   # key -> list of Val
        self.fn = fn
        self.node = node
        self.ctrl = ctrl
        self.ctx = ctx


class Frame:
    __slots__ = ('fn', 'env', 'ret', 'selfatom', 'cls', 'ctx', 'depth', 'closure', 'mod')

    def __init__(self, fn, env, selfatom, cls, ctx, depth, closure=None, mod=None):
        self.fn = fn
        self.env = env
        self.ret = []
        self.selfatom = selfatom
        self.cls = cls
        self.ctx = ctx
        self.depth = depth
        self.closure = closure
        self.mod = mod or (fn.module if fn is not None else None)


MODEL = 'resqpy.model._model.Model'


class Interp:
    MAX_DEPTH = 9
    SMALL = 260

    def __init__(self, repo, relevant=None, intrinsics=None, small=None, budget=150000):
        """relevant: set of Fn quals that must be inlined (whatever their size); intrinsics: dict qual or method name -> handler."""
        self.repo = repo
        self.relevant = relevant if relevant is not None else set()
        self.intr = dict(intrinsics or {})
        self.heap = {}          # (atom, attr) -> Val
        self.xnodes = {}        # atom -> XNode
        self.events = []
        self.ctrl = ()
        self.stack = []
        self.budget = budget
        self.calls = 0
        self.inlined = set()
        self.small = self.SMALL if small is None else small
        self._size = {}
        self._modvar = {}
        self._small_memo = {}

    # ----------------------------------------------------------------- helpers
    def event(self, fr, kind, node, /, **data):
        e = Event(kind, fr.fn, node, data, self.ctrl, fr.ctx)
        self.events.append(e)
        return e

    def size(self, fn):
        s = self._size.get(fn.qual)
        if s is None:
            s = self._size[fn.qual] = sum(1 for _ in ast.walk(fn.node))
        return s

    def typeof(self, atom):
        """class of an abstract object, or None."""
        k = atom[0]
        if k == 'self':
            return self.repo.classes.get(atom[1])
        if k == 'new':
            return self.repo.classes.get(atom[2])
        if k == 'param':
            if atom[2] in ('model', 'parent_model'):
                return self.repo.classes.get(MODEL)
            t = self.param_types.get((atom[1], atom[2]))
            if t:
                return self.repo.classes.get(t)
            return None
        if k == 'attr':
            if atom[2] in ('model', 'parent_model'):
                return self.repo.classes.get(MODEL)
            t = self.attr_types.get(atom[2])
            if t:
                return self.repo.classes.get(t)
            return None
        return None

    param_types = {}
    attr_types = {}

    # ------------------------------------------------------------------ entry
    def run_method(self, cls, fn, selfatom=None, args=None):
        selfatom = selfatom or ('self', cls.qual)
        binds = {}
        ps = fn.params[:]
        if fn.kind == 'method' and ps:
            binds[ps[0]] = Val(frozenset([selfatom]))
            ps = ps[1:]
        elif fn.kind == 'class' and ps:
            binds[ps[0]] = Val(frozenset([('ref', 'cls', cls.qual)]))
            ps = ps[1:]
        for p in ps:
            if args and p in args:
                binds[p] = args[p]
            else:
                binds[p] = Val(frozenset([('param', fn.qual, p)]))
        return self._run(fn, binds, selfatom, cls, ())

    def run_function(self, fn, args=None):
        binds = {}
        for p in fn.params:
            binds[p] = args[p] if args and p in args else Val(frozenset([('param', fn.qual, p)]))
        return self._run(fn, binds, None, None, ())

    def _run(self, fn, binds, selfatom, cls, ctx, depth=0, closure=None):
        a = fn.node.args
        env = dict(binds)
        if a.vararg:
            env.setdefault(a.vararg.arg, Val(EMPTY, frozenset([('param', fn.qual, '*' + a.vararg.arg)])))
        if a.kwarg:
            env.setdefault(a.kwarg.arg, Val(EMPTY, frozenset([('param', fn.qual, '**' + a.kwarg.arg)])))
        fr = Frame(fn, env, selfatom, cls, ctx, depth, closure)
        self.stack.append(fn.qual)
        self.inlined.add(fn.qual)
        self.calls += 1
        if self.calls > self.budget:
            raise AnalysisBroken('inlining budget exceeded')
        try:
            self.block(fr, fn.node.body)
        finally:
            self.stack.pop()
        if not fr.ret:
            return NONE
        return join(*fr.ret)

    # ------------------------------------------------------------- statements
    def block(self, fr, stmts):
        saved = self.ctrl
        try:
            for s in stmts:
                if self.stmt(fr, s):
                    return True
            return False
        finally:
            self.ctrl = saved

    def stmt(self, fr, s):
        if isinstance(s, ast.Expr):
            self.ev(fr, s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(fr, s.value)
            for t in s.targets:
                self.assign(fr, t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(fr, s.target, self.ev(fr, s.value), s)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(fr, ast.copy_location(self._load(s.target), s.target))
            v = self.binop(s.op, cur, self.ev(fr, s.value))
            self.assign(fr, s.target, v, s, aug=True)
        elif isinstance(s, ast.Return):
            fr.ret.append(self.ev(fr, s.value) if s.value is not None else NONE)
            return True
        elif isinstance(s, ast.If):
            return self.if_(fr, s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.for_(fr, s)
        elif isinstance(s, ast.While):
            t = self.ev(fr, s.test)
            saved = self.ctrl
            self.ctrl = self.ctrl + ((t, s.test, True, fr.fn.qual),)
            for _ in range(2):
                before = dict(fr.env)
                self.block(fr, s.body)
                self.merge(fr, before)
            self.ctrl = saved
            self.block(fr, s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(fr, it.context_expr)
                if it.optional_vars is not None:
                    self.assign(fr, it.optional_vars, v, s)
            return self.block(fr, s.body)
        elif isinstance(s, ast.Try):
            before = dict(fr.env)
            term = self.block(fr, s.body)
            if not term:
                term = self.block(fr, s.orelse)
            after = dict(fr.env)
            outs = [] if term else [after]
            for h in s.handlers:
                fr.env = dict(before)
                self.merge(fr, after)
                if h.name:
                    fr.env[h.name] = BOT
                if not self.block(fr, h.body):
                    outs.append(dict(fr.env))
            fr.env = after
            if outs:
                fr.env = dict(outs[0])
                for o in outs[1:]:
                    self.merge(fr, o)
            if self.block(fr, s.finalbody):
                return True
            return not outs and bool(s.handlers or term)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(fr, s.exc)
            return True
        elif isinstance(s, ast.Assert):
            self.ev(fr, s.test)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Attribute):
                    b = self.ev(fr, t.value)
                    self.event(fr, 'delattr', s, base=b, attr=t.attr)
                elif isinstance(t, ast.Subscript):
                    b = self.ev(fr, t.value)
                    k = self.ev(fr, t.slice)
                    self.event(fr, 'delitem', s, base=b, key=k)
        elif isinstance(s, (ast.Continue, ast.Break)):
            return True
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = f'{fr.fn.qual}.<locals>.{s.name}'
            fr.env[s.name] = Val(frozenset([('ref', 'fn', q)]))
            self._closures = getattr(self, '_closures', {})
            self._closures[q] = fr
        elif isinstance(s, ast.Match):
            v = self.ev(fr, s.subject)
            outs = []
            base = dict(fr.env)
            for c in s.cases:
                fr.env = dict(base)
                for n in ast.walk(c.pattern):
                    nm = getattr(n, 'name', None)
                    if nm:
                        fr.env[nm] = dep_only(v)
                if not self.block(fr, c.body):
                    outs.append(fr.env)
            fr.env = base
            for o in outs:
                self.merge(fr, o)
        return False

    @staticmethod
    def _load(t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Load())
        return t

    def merge(self, fr, other):
        e = fr.env
        for k, v in other.items():
            if k in e:
                if e[k] is not v:
                    e[k] = join(e[k], v)
            else:
                e[k] = v

    def if_(self, fr, s):
        t = self.ev(fr, s.test)
        truth = self.truth(t)
        if truth is True:
            return self.block(fr, s.body)
        if truth is False:
            return self.block(fr, s.orelse)
        saved = self.ctrl
        base = dict(fr.env)
        self.ctrl = saved + ((t, s.test, True, fr.fn.qual),)
        t1 = self.block(fr, s.body)
        env1 = fr.env
        fr.env = base
        self.ctrl = saved + ((t, s.test, False, fr.fn.qual),)
        t2 = self.block(fr, s.orelse)
        self.ctrl = saved
        if t1 and t2:
            return True
        if t1:
            # (an error raised is not a condition on what follows)
            if not isinstance(s.body[-1], ast.Raise):
                self.ctrl = saved + ((t, s.test, False, fr.fn.qual),)
            return False
        if t2:
            fr.env = env1
            if not isinstance(s.orelse[-1], ast.Raise):
                self.ctrl = saved + ((t, s.test, True, fr.fn.qual),)
            return False
        self.merge(fr, env1)
        return False

    def for_(self, fr, s):
        it = self.ev(fr, s.iter)
        elts = self.literal_elts(it)
        ctx = fr.ctx
        if elts is not None and len(elts) <= 12:
            for i, e in enumerate(elts):
                fr.ctx = ctx + (('it', s.lineno, i),)
                self.assign(fr, s.target, e, s)
                self.block(fr, s.body)
            fr.ctx = ctx
        else:
            saved = self.ctrl
            self.ctrl = self.ctrl + ((it, s.iter, True, fr.fn.qual),)
            el = self.element(it)
            for _ in range(2):
                before = dict(fr.env)
                self.assign(fr, s.target, el, s)
                self.block(fr, s.body)
                self.merge(fr, before)
            self.ctrl = saved
        self.block(fr, s.orelse)
        return False

    @staticmethod
    def literal_elts(v):
        if len(v.ids) == 1 and not v.deps:
            a = next(iter(v.ids))
            if a[0] == 'tup':
                return list(a[1])
            if a[0] == 'dict':
                return [k for k, _ in a[1]]
        return None

    @staticmethod
    def element(v):
        """abstract element of an iterable."""
        outs = []
        for a in v.ids:
            if a[0] == 'tup':
                outs.extend(a[1])
            elif a[0] == 'dict':
                outs.extend(k for k, _ in a[1])
            elif a[0] == 'c' and isinstance(a[1], str):
                outs.extend(const(ch) for ch in set(a[1][:30]))
            elif a[0] == 'xr':
                outs.append(Val(frozenset([a])))
            elif a[0] == 'root':
                outs.append(Val(frozenset([('xr', a, '*')])))
            elif a[0] == 'c':
                pass
            else:
                outs.append(dep_only(Val(frozenset([a]))))
                outs.append(Val(frozenset([('el', a)])) if a[0] in ('attr', 'param', 'new') else BOT)
        return join(Val(EMPTY, v.deps), *outs)

    def assign(self, fr, t, v, s, aug=False):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            per = None
            tups = [a for a in v.ids if a[0] == 'tup']
            if tups and all(len(a[1]) == n for a in tups) and not any(isinstance(e, ast.Starred) for e in t.elts):
                per = [join(*(a[1][i] for a in tups)) for i in range(n)]
                rest = Val(frozenset(a for a in v.ids if a[0] not in ('tup', 'c')), v.deps)
                if rest.ids or rest.deps:
                    d = dep_only(rest)
                    per = [join(p, d) for p in per]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(fr, e, per[i] if per else self.component(v, i, fr, s), s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(fr, t.value)
            self.store_attr(fr, b, t.attr, v, s, aug)
        elif isinstance(t, ast.Subscript):
            b = self.ev(fr, t.value)
            k = self.ev(fr, t.slice)
            self.event(fr, 'setitem', s, base=b, key=k, val=v)
            for a in b.ids:
                if a[0] == 'xattrib' and a[1] in self.xnodes:
                    for kk in k.tags() or ['?']:
                        self.xnodes[a[1]].attribs.setdefault(self.strip(kk), []).append(v)
            # container content: a local container absorbs provenance
            tgt = t.value
            while isinstance(tgt, ast.Subscript):
                tgt = tgt.value
            if isinstance(tgt, ast.Name) and tgt.id in fr.env:
                fr.env[tgt.id] = join(fr.env[tgt.id], dep_only(v))
            elif isinstance(tgt, ast.Attribute):
                bb = self.ev(fr, tgt.value)
                for a in bb.ids:
                    if a[0] in ('self', 'new', 'param', 'attr'):
                        key = (a, tgt.attr)
                        self.heap[key] = join(self.heap.get(key), dep_only(v))
                self.event(fr, 'store', s, base=bb, attr=tgt.attr, val=v, elem=True, aug=aug)
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, v, s)

    def component(self, v, i, fr, s):
        ids = set()
        for a in v.ids:
            if a[0] in ('xr',):
                ids.add(a)
            elif a[0] in ('call', 'attr', 'param', 'h5', 'el', 'comp'):
                if len(str(a)) < 400:
                    ids.add(('comp', a, i))
        d = dep_only(v)
        return Val(frozenset(ids), d.deps)

    @staticmethod
    def strip(tag):
        i = tag.rfind('}')
        if i >= 0:
            return tag[i + 1:]
        return tag[tag.rfind(':') + 1:]

    def store_attr(self, fr, b, attr, v, s, aug=False):
        for a in b.ids:
            if a[0] == 'xn' and attr == 'text':
                e = self.event(fr, 'xmltext', s, node=a, val=v)
                self.xnodes[a].texts.append((v, e))
            elif a[0] in ('self', 'new', 'param', 'attr', 'el'):
                key = (a, attr)
                self.heap[key] = join(self.heap.get(key), v)
                c = self.typeof(a)
                if c is not None:
                    st = self.repo.find_setter(c, attr)
                    if st is not None and fr.depth < self.MAX_DEPTH and st.qual not in self.stack:
                        self._run(st, {st.params[0]: Val(frozenset([a])), st.params[1]: v}, a, c,
                                  fr.ctx + ((fr.fn.qual, s.lineno, s.col_offset),), fr.depth + 1)
        self.event(fr, 'store', s, base=b, attr=attr, val=v, elem=False, aug=aug)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if v.deps or not v.ids:
            return None
        ts = set()
        for a in v.ids:
            if a[0] == 'c':
                ts.add(bool(a[1]))
            elif a[0] == 'tup':
                ts.add(bool(a[1]))
            elif a[0] in ('xn', 'self', 'bm', 'ref'):
                ts.add(True)
            else:
                return None
        return ts.pop() if len(ts) == 1 else None

    def binop(self, op, l, r):
        if isinstance(op, ast.Add):
            ids = set()
            lc = [a for a in l.ids if a[0] == 'c' and isinstance(a[1], str)]
            rc = [a for a in r.ids if a[0] == 'c' and isinstance(a[1], str)]
            if lc and rc and len(lc) * len(rc) <= 64:
                for x in lc:
                    for y in rc:
                        ids.add(('c', x[1] + y[1], 'str'))
            elif lc and len(lc) <= 16:      # prefix known, suffix not
                for x in lc:
                    ids.add(('c', x[1] + '{}', 'str'))
            elif rc and len(rc) <= 16:
                for y in rc:
                    ids.add(('c', '{}' + y[1], 'str'))
            lt = [a for a in l.ids if a[0] == 'tup']
            rt = [a for a in r.ids if a[0] == 'tup']
            if lt and rt and len(lt) == len(rt) == 1:
                ids.add(('tup', lt[0][1] + rt[0][1]))
            return Val(frozenset(ids), dep_only(l, r).deps)
        if isinstance(op, ast.Mod):
            lc = [a for a in l.ids if a[0] == 'c' and isinstance(a[1], str)]
            if lc and len(lc) == len(l.ids):
                return Val(frozenset(('c', re.sub(r'%[-+ #0]*\d*(\.\d+)?[a-zA-Z]', '{}', a[1]), 'str') for a in lc), dep_only(l, r).deps)
        return dep_only(l, r)

    def ev(self, fr, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(fr, e)
        vs = []
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                vs.append(self.ev(fr, c))
        return dep_only(*vs)

    def ev_Constant(self, fr, e):
        return const(e.value)

    def ev_Name(self, fr, e):
        if e.id in fr.env:
            return fr.env[e.id]
        c = fr.closure
        while c is not None:
            if e.id in c.env:
                return c.env[e.id]
            c = c.closure
        if e.id in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[e.id])
        ent = self.repo.resolve_expr(fr.fn if fr.fn is not None else fr.mod, e)
        if ent is None:
            return Val(frozenset([('ref', 'builtin', e.id)]))
        return self.ent_val(ent)

    def ent_val(self, ent):
        if ent is None:
            return BOT
        if ent[0] == 'mod':
            return Val(frozenset([('ref', 'mod', ent[1])]))
        if ent[0] == 'fn':
            return Val(frozenset([('ref', 'fn', ent[1].qual)]))
        if ent[0] == 'cls':
            return Val(frozenset([('ref', 'cls', ent[1].qual)]))
        if ent[0] == 'ext':
            return Val(frozenset([('ref', 'ext', ent[1])]))
        if ent[0] == 'var':
            return self.modvar(ent[1], ent[2])
        return BOT

    def modvar(self, mod, name):
        key = (mod.name, name)
        if key in self._modvar:
            return self._modvar[key]
        self._modvar[key] = BOT
        if mod.name == 'resqpy.olio.xml_namespaces':
            v = Val(frozenset([('nsdict', name)]))
        else:
            ex = mod.assigns.get(name)
            if ex is None:
                v = Val(frozenset([('gvar', mod.name, name)]))
            else:
                f = Frame(None, {}, None, None, (), 5, mod=mod)
                try:
                    v = self.ev(f, ex)
                except Exception:
                    v = BOT
                if len(repr(v)) > 20000:
                    v = BOT
                if any(a[0] not in ('c', 'tup', 'dict', 'ref', 'nsdict') for a in v.ids) or v.deps or not v.ids:
                    v = join(v, Val(frozenset([('gvar', mod.name, name)])))
        self._modvar[key] = v
        return v

    def ev_Attribute(self, fr, e):
        b = self.ev(fr, e.value)
        return self.getattr_(fr, b, e.attr, e)

    def getattr_(self, fr, b, attr, e):
        outs = []
        for a in b.ids:
            outs.append(self.getattr_atom(fr, a, attr, e))
        if b.deps:
            outs.append(Val(EMPTY, b.deps))
        return join(*outs)

    def getattr_atom(self, fr, a, attr, e):
        k = a[0]
        if k == 'ref':
            if a[1] == 'mod':
                ent = self.repo.resolve_attr(('mod', a[2]), attr)
                return self.ent_val(ent) if ent else Val(frozenset([('ref', 'ext', f'{a[2]}.{attr}')]))
            if a[1] == 'cls':
                c = self.repo.classes[a[2]]
                f = self.repo.find_method(c, attr)
                if f is not None:
                    if f.kind == 'class':
                        return Val(frozenset([('bm', a, f.qual)]))
                    return Val(frozenset([('ref', 'fn', f.qual)]))
                ca = self.repo.find_class_attr(c, attr)
                if ca is not None:
                    return self.ev(Frame(None, {}, None, None, (), 5, mod=ca[1].module), ca[0])
                return BOT
            if a[1] in ('ext', 'builtin'):
                return Val(frozenset([('ref', 'ext', f'{a[2]}.{attr}')]))
            return BOT
        if k == 'super':
            c = self.repo.classes[a[1]]
            dyn = self.repo.classes[a[3]] if a[3] in self.repo.classes else c
            mro = self.repo.mro(dyn)
            i = mro.index(c) + 1 if c in mro else 1
            for kk in mro[i:]:
                if attr in kk.methods:
                    f = kk.methods[attr]
                    if f.is_prop:
                        return self.call_fn(fr, f, [Val(frozenset([a[2]]))], {}, e, a[2])
                    return Val(frozenset([('bm', a[2], f.qual)]))
            return Val(frozenset([('extm', a[2], attr)]))
        if k in ('xr', 'root'):
            if attr == 'text':
                return Val(frozenset([('xv', a, 'text')]), frozenset([('xv', a, 'text')]))
            if attr == 'attrib':
                return Val(frozenset([('xattrib', a)]))
            if attr == 'tag':
                return Val(frozenset([('xv', a, 'tag')]))
            return Val(frozenset([('extm', a, attr)]))
        if k == 'xn':
            if attr == 'attrib':
                return Val(frozenset([('xattrib', a)]))
            if attr == 'text':
                return join(*[t for t, _ in self.xnodes[a].texts])
            return Val(frozenset([('extm', a, attr)]))
        if k in ('self', 'new', 'param', 'attr', 'el'):
            c = self.typeof(a)
            if c is not None:
                name = attr
                f = self.repo.find_method(c, name)
                if fr.fn is not None and attr.startswith('__') and not attr.endswith('__') and fr.fn.cls is not None:
                    f = fr.fn.cls.methods.get(attr, f)
                if f is not None:
                    if f.is_prop:
                        h = self.intr.get(f.qual) or self.intr.get('prop:' + attr)
                        if h is not None:
                            return h(self, fr, e, [Val(frozenset([a]))], {}, a)
                        r = self.call_fn(fr, f, [Val(frozenset([a]))], {}, e, a)
                        return Val(r.ids, r.deps | frozenset([('attr', a, attr)]))
                    if f.kind == 'static':
                        return Val(frozenset([('ref', 'fn', f.qual)]))
                    if f.kind == 'class':
                        return Val(frozenset([('bm', ('ref', 'cls', c.qual), f.qual)]))
                    return Val(frozenset([('bm', a, f.qual)]))
            h = self.heap.get((a, attr))
            ids = {('attr', a, attr)} if self.adepth(a) < 3 else set()
            if h is not None:
                for x in h.ids:
                    if x[0] in ('xr', 'root', 'xn', 'h5', 'new', 'self', 'tup', 'ref', 'comp') and self.adepth(x) < 6:
                        ids.add(x)
            elif c is not None:
                ca = self.repo.find_class_attr(c, attr)
                if ca is not None:
                    v = self.ev(Frame(None, {}, None, None, (), 5, mod=ca[1].module), ca[0])
                    return Val(v.ids | frozenset(ids), v.deps)
            return Val(frozenset(ids), EMPTY)
        if k == 'tup' and attr in ('append', 'extend', 'index', 'count', 'copy', 'insert', 'sort', 'remove', 'pop'):
            return Val(frozenset([('extm', a, attr)]))
        if k == 'dict':
            return Val(frozenset([('extm', a, attr)]))
        if k == 'c':
            return Val(frozenset([('extm', a, attr)]))
        if k == 'h5reg':
            return Val(frozenset([('extm', a, attr)]))
        if self.adepth(a) >= 4:
            return Val(EMPTY, frozenset([a]))
        return Val(frozenset([('extm', a, attr)]), EMPTY)

    @staticmethod
    def adepth(a):
        d = 0
        while isinstance(a, tuple) and a[0] in ('attr', 'el', 'comp', 'xr', 'extm', 'xv', 'xattrib', 'h5', 'item') and len(a) > 1 and isinstance(a[1], tuple):
            a = a[1]
            d += 1
        return d

    def ev_Subscript(self, fr, e):
        b = self.ev(fr, e.value)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(fr, x)
            i = BOT
            keep = frozenset(a for a in b.ids if a[0] not in ('c', 'tup'))
            ids = set(keep)
            for a in b.ids:
                if a[0] == 'c' and isinstance(a[1], str):
                    lo, hi = e.slice.lower, e.slice.upper
                    try:
                        l = ast.literal_eval(lo) if lo is not None else None
                        h = ast.literal_eval(hi) if hi is not None else None
                        ids.add(('c', a[1][l:h], 'str'))
                    except Exception:
                        pass
                elif a[0] == 'tup':
                    ids.add(a)
            return Val(frozenset(ids), b.deps)
        i = self.ev(fr, e.slice)
        outs = []
        for a in b.ids:
            if a[0] == 'nsdict':
                outs.append(const(''))
            elif a[0] == 'tup':
                cs = [c for c in i.consts() if isinstance(c, int)]
                if cs and i.only_consts():
                    for c in cs:
                        if -len(a[1]) <= c < len(a[1]):
                            outs.append(a[1][c])
                else:
                    outs.extend(a[1])
                    outs.append(dep_only(i))
            elif a[0] == 'dict':
                cs = i.consts()
                if cs and i.only_consts():
                    for kk, vv in a[1]:
                        if set(kk.consts()) & set(cs):
                            outs.append(vv)
                else:
                    outs.extend(vv for _, vv in a[1])
                    outs.append(dep_only(i))
            elif a[0] == 'c' and isinstance(a[1], str):
                cs = [c for c in i.consts() if isinstance(c, int)]
                if cs and i.only_consts():
                    outs.extend(const(a[1][c]) for c in cs if -len(a[1]) <= c < len(a[1]))
                else:
                    outs.extend(const(ch) for ch in set(a[1][:12]))
            elif a[0] == 'xattrib':
                for t in i.tags() or ['?']:
                    x = ('xv', a[1], 'attr:' + self.strip(t))
                    outs.append(Val(frozenset([x]), frozenset([x])))
            elif a[0] in ('xr', 'root'):
                outs.append(Val(frozenset([a if a[0] == 'xr' else ('xr', a, '*')])))
            elif a[0] in ('call', 'attr', 'param', 'el', 'comp', 'h5', 'new', 'gvar', 'item'):
                cs = [c for c in i.consts()]
                if self.adepth(a) < 4:
                    key = cs[0] if len(cs) == 1 and i.only_consts() else None
                    outs.append(Val(frozenset([('item', a, key)]), dep_only(i).deps | frozenset([a])))
                else:
                    outs.append(Val(EMPTY, frozenset([a])))
            elif a[0] == 'c':
                pass
            else:
                outs.append(Val(EMPTY, frozenset([a])))
        outs.append(Val(EMPTY, b.deps | dep_only(i).deps))
        return join(*outs)

    def ev_Tuple(self, fr, e):
        vs = []
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(fr, x.value)
                el = self.literal_elts(v)
                if el is not None:
                    vs.extend(el)
                else:
                    star = True
                    vs.append(self.element(v))
            else:
                vs.append(self.ev(fr, x))
        if star or len(vs) > 130:
            return join(*vs)
        return Val(frozenset([('tup', tuple(vs))]))

    ev_List = ev_Tuple
    ev_Set = ev_Tuple

    def ev_Dict(self, fr, e):
        its = []
        extra = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                extra.append(self.ev(fr, v))
            else:
                its.append((self.ev(fr, k), self.ev(fr, v)))
        r = Val(frozenset([('dict', tuple(its))]))
        return join(r, *extra) if extra else r

    def ev_BinOp(self, fr, e):
        l, r = self.ev(fr, e.left), self.ev(fr, e.right)
        if isinstance(e.op, ast.Mod):
            return dep_only(l, r)
        if l.only_consts() and r.only_consts() and len(l.ids) == len(r.ids) == 1 and not l.deps and not r.deps:
            a, b = l.consts()[0], r.consts()[0]
            try:
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    if isinstance(e.op, ast.Add):
                        return const(a + b)
                    if isinstance(e.op, ast.Sub):
                        return const(a - b)
                    if isinstance(e.op, ast.Mult):
                        return const(a * b)
            except Exception:
                pass
        return self.binop(e.op, l, r)

    def ev_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return const(not t)
        if isinstance(e.op, ast.USub) and v.only_consts() and len(v.ids) == 1 and isinstance(v.consts()[0], (int, float)):
            return const(-v.consts()[0])
        return dep_only(v)

    def ev_BoolOp(self, fr, e):
        saved = self.ctrl
        vs = []
        res = None
        is_and = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(fr, x)
            vs.append(v)
            t = self.truth(v)
            if t is (not is_and):
                # short circuit: constant result
                if all(self.truth(w) is is_and for w in vs[:-1]):
                    self.ctrl = saved
                    return v
                res = t
                break
            self.ctrl = self.ctrl + ((v, x, is_and, fr.fn.qual if fr.fn else ''),)
        self.ctrl = saved
        if res is not None and is_and and res is False:
            return const(False)
        if all(self.truth(w) is is_and for w in vs):
            return vs[-1]
        keep = [v for v in vs if not (is_and and self.truth(v) is True)]
        return join(*keep)

    def ev_Compare(self, fr, e):
        l = self.ev(fr, e.left)
        rs = [self.ev(fr, c) for c in e.comparators]
        if len(rs) == 1:
            r = rs[0]
            op = e.ops[0]
            if not l.deps and not r.deps and l.ids and r.ids:
                if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    lk = {a[0] for a in l.ids}
                    rk = {a[0] for a in r.ids}
                    if lk == {'c'} and rk == {'c'} and len(l.ids) == 1 and len(r.ids) == 1:
                        eq = l.consts()[0] == r.consts()[0]
                        return const(eq if isinstance(op, (ast.Is, ast.Eq)) else not eq)
                    if rk == {'c'} and r.consts() == [None] and lk <= {'xn', 'self', 'tup', 'dict', 'ref', 'bm', 'new', 'h5reg'}:
                        return const(isinstance(op, (ast.IsNot, ast.NotEq)))
                    if rk == {'c'} and lk == {'c'} and len(r.ids) == 1 and r.consts()[0] not in l.consts():
                        return const(isinstance(op, (ast.IsNot, ast.NotEq)))
                if isinstance(op, (ast.In, ast.NotIn)) and l.only_consts() and len(l.ids) == 1 and len(r.ids) == 1:
                    a = next(iter(r.ids))
                    res = None
                    if a[0] == 'tup' and all(x.only_consts() and len(x.ids) == 1 for x in a[1]):
                        res = l.consts()[0] in [x.consts()[0] for x in a[1]]
                    elif a[0] == 'c' and isinstance(a[1], str) and isinstance(l.consts()[0], str) and '{}' not in a[1]:
                        res = l.consts()[0] in a[1]
                    if res is not None:
                        return const(res if isinstance(op, ast.In) else not res)
        return dep_only(l, *rs)

    def ev_IfExp(self, fr, e):
        t = self.ev(fr, e.test)
        tr = self.truth(t)
        if tr is True:
            return self.ev(fr, e.body)
        if tr is False:
            return self.ev(fr, e.orelse)
        saved = self.ctrl
        q = fr.fn.qual if fr.fn else ''
        self.ctrl = saved + ((t, e.test, True, q),)
        a = self.ev(fr, e.body)
        self.ctrl = saved + ((t, e.test, False, q),)
        b = self.ev(fr, e.orelse)
        self.ctrl = saved
        r = join(a, b)
        if r.only_consts():     # 'true' if self.x else 'false'
            r = Val(r.ids, r.deps | dep_only(t).deps)
        return r

    def ev_JoinedStr(self, fr, e):
        parts = [const('')]
        acc = const('')
        for v in e.values:
            if isinstance(v, ast.Constant):
                acc = self.binop(ast.Add(), acc, const(v.value))
            else:
                x = self.ev(fr, v.value)
                sv = Val(frozenset(('c', str(c), 'str') for c in x.consts()) if x.only_consts() else frozenset([('c', '{}', 'str')]), dep_only(x).deps)
                acc = Val(self.binop(ast.Add(), acc, sv).ids, acc.deps | sv.deps)
        return acc

    def ev_FormattedValue(self, fr, e):
        return dep_only(self.ev(fr, e.value))

    def _comp(self, fr, e, elts):
        saved_env = dict(fr.env)
        saved = self.ctrl
        for g in e.generators:
            it = self.ev(fr, g.iter)
            self.assign(fr, g.target, self.element(it), e)
            for c in g.ifs:
                t = self.ev(fr, c)
                self.ctrl = self.ctrl + ((t, c, True, fr.fn.qual if fr.fn else ''),)
        vs = [self.ev(fr, x) for x in elts]
        self.ctrl = saved
        fr.env = saved_env
        return vs

    def ev_ListComp(self, fr, e):
        # unroll over literal sequences (single generator, no filter)
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(fr, e.generators[0].iter)
            el = self.literal_elts(it)
            if el is not None and len(el) <= 12:
                saved_env = dict(fr.env)
                ctx = fr.ctx
                out = []
                for i, x in enumerate(el):
                    fr.ctx = ctx + (('it', e.lineno, i),)
                    self.assign(fr, e.generators[0].target, x, e)
                    out.append(self.ev(fr, e.elt))
                fr.ctx = ctx
                fr.env = saved_env
                return Val(frozenset([('tup', tuple(out))]))
        return self._comp(fr, e, [e.elt])[0]

    ev_SetComp = ev_ListComp
    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, fr, e):
        return join(*self._comp(fr, e, [e.key, e.value]))

    def ev_Lambda(self, fr, e):
        vs = []
        for n in ast.walk(e.body):
            if isinstance(n, ast.Name) and n.id in fr.env:
                vs.append(fr.env[n.id])
        return Val(frozenset([('lambda', e.lineno, e.col_offset)]), dep_only(*vs).deps)

    def ev_Starred(self, fr, e):
        return self.element(self.ev(fr, e.value))

    def ev_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v, e)
        return v

    def ev_Await(self, fr, e):
        return self.ev(fr, e.value)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, fr, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and fr.fn is not None and fr.fn.cls is not None and fr.selfatom is not None:
            dyn = fr.cls.qual if fr.cls is not None else fr.fn.cls.qual
            return Val(frozenset([('super', fr.fn.cls.qual, fr.selfatom, dyn)]))
        f = self.ev(fr, e.func)
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(fr, a.value)
                el = self.literal_elts(v)
                if el is not None:
                    args.extend(el)
                else:
                    star = True
                    args.append(self.element(v))
            else:
                args.append(self.ev(fr, a))
        kw = {}
        for k in e.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                el = [a for a in v.ids if a[0] == 'dict']
                if el:
                    for a in el:
                        for kk, vv in a[1]:
                            for t in kk.tags():
                                kw[t] = join(kw.get(t), vv)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        outs = []
        for a in sorted(f.ids, key=repr) if len(f.ids) > 1 else f.ids:
            outs.append(self.call_atom(fr, a, args, kw, e, star))
        if not f.ids or f.deps:
            outs.append(dep_only(f, *args, *kw.values()))
        return join(*outs)

    def call_atom(self, fr, a, args, kw, e, star=False):
        k = a[0]
        if k == 'ref':
            if a[1] == 'fn':
                fn = self.repo.fns[a[2]]
                return self.call_fn(fr, fn, args, kw, e, None)
            if a[1] == 'cls':
                return self.construct(fr, a[2], args, kw, e)
            if a[1] == 'builtin':
                return self.call_builtin(fr, a[2], args, kw, e)
            if a[1] == 'ext':
                h = self.intr.get(a[2])
                if h is not None:
                    return h(self, fr, e, args, kw, None)
                return self.call_ext(fr, a[2], args, kw, e)
            return dep_only(*args, *kw.values())
        if k == 'bm':
            fn = self.repo.fns[a[2]]
            return self.call_fn(fr, fn, [Val(frozenset([a[1]]))] + list(args), kw, e, a[1])
        if k == 'extm':
            return self.call_method(fr, a[1], a[2], args, kw, e)
        if k == 'attr':
            h = self.intr.get('.' + a[2])
            if h is not None:
                r = h(self, fr, e, args, kw, a[1])
                if r is not None:
                    return r
            return self.call_method(fr, a[1], a[2], args, kw, e)
        return dep_only(Val(frozenset([a])), *args, *kw.values())

    def call_method(self, fr, recv, name, args, kw, e):
        """method call on an atom whose class is not known."""
        h = self.intr.get('.' + name)
        if h is not None:
            r = h(self, fr, e, args, kw, recv)
            if r is not None:
                return r
        if recv[0] == 'xn':
            if name == 'set' and len(args) >= 2:
                for t in args[0].tags() or ['?']:
                    self.xnodes[recv].attribs.setdefault(self.strip(t), []).append(args[1])
                self.event(fr, 'xmlattr', e, node=recv, key=args[0], val=args[1])
                return NONE
            if name in ('append', 'insert', 'addnext'):
                for c in args[-1].ids:
                    if c[0] == 'xn':
                        self.xnodes[c].parents.add(recv)
                self.event(fr, 'xmlappend', e, node=recv, child=args[-1])
                return NONE
            if name == 'extend':
                for c in self.element(args[0]).ids:
                    if c[0] == 'xn':
                        self.xnodes[c].parents.add(recv)
                return NONE
        if recv[0] in ('xr', 'root'):
            if name == 'get' and args:
                out = [Val(frozenset([('xv', recv, 'attr:' + self.strip(t))]), frozenset([('xv', recv, 'attr:' + self.strip(t))])) for t in args[0].tags() or ['?']]
                return join(*out)
            if name in ('iter', 'iterchildren', 'iterdescendants', 'getchildren', 'findall', 'find'):
                return Val(frozenset([('xr', recv, '**' if name != 'iterchildren' else '*')]))
        if recv[0] == 'xattrib':
            if name == 'get' and args:
                out = [Val(frozenset([('xv', recv[1], 'attr:' + self.strip(t))]), frozenset([('xv', recv[1], 'attr:' + self.strip(t))])) for t in args[0].tags() or ['?']]
                return join(*out)
            if name in ('keys', 'items', 'values'):
                return Val(frozenset([('xv', recv[1], 'attr:*')]), frozenset([('xv', recv[1], 'attr:*')]))
        if recv[0] == 'c' and isinstance(recv[1], str):
            s = recv[1]
            try:
                if name in ('lower', 'upper', 'strip', 'capitalize', 'title') and not args:
                    return const(getattr(s, name)())
                if name in ('startswith', 'endswith') and len(args) == 1 and args[0].only_consts() and len(args[0].ids) == 1 and '{}' not in s:
                    return const(getattr(s, name)(args[0].consts()[0]))
                if name == 'replace' and all(x.only_consts() and len(x.ids) == 1 for x in args):
                    return const(s.replace(*[x.consts()[0] for x in args]))
                if name == 'format':
                    return Val(frozenset([('c', fill(s, args, kw), 'str')]), dep_only(*args, *kw.values()).deps)
                if name == 'join':
                    return Val(EMPTY, dep_only(*args).deps)
            except Exception:
                pass
            return dep_only(*args, *kw.values())
        if recv[0] == 'dict':
            if name == 'items':
                return Val(frozenset([('tup', tuple(Val(frozenset([('tup', (k, v))])) for k, v in recv[1]))]))
            if name == 'keys':
                return Val(frozenset([('tup', tuple(k for k, _ in recv[1]))]))
            if name == 'values':
                return Val(frozenset([('tup', tuple(v for _, v in recv[1]))]))
            if name == 'get' and args:
                cs = args[0].consts()
                if args[0].only_consts():
                    o = [v for k, v in recv[1] if set(k.consts()) & set(cs)]
                    if not o:
                        o = [args[1] if len(args) > 1 else NONE]
                    return join(*o)
                return join(*[v for _, v in recv[1]], dep_only(args[0]))
        # container mutators: absorb provenance into the receiver variable
        if name in ('append', 'add', 'extend', 'insert', 'update', 'setdefault', 'put', 'fill'):
            tgt = e.func.value if isinstance(e.func, ast.Attribute) else None
            v = join(*args, *kw.values()) if args or kw else BOT
            if isinstance(tgt, ast.Name) and tgt.id in fr.env:
                old = fr.env[tgt.id]
                if name == 'append' and len(old.ids) == 1 and next(iter(old.ids))[0] == 'tup' and not old.deps and not self.in_loop(fr) and len(next(iter(old.ids))[1]) < 40:
                    fr.env[tgt.id] = Val(frozenset([('tup', next(iter(old.ids))[1] + (args[0],))]))
                else:
                    # literal structure is lost; element identities kept
                    base = self.element(old) if any(a[0] == 'tup' for a in old.ids) else old
                    fr.env[tgt.id] = join(base, v if name != 'extend' else self.element(v), dep_only(v))
            elif isinstance(tgt, ast.Attribute):
                bb = self.ev(fr, tgt.value)
                for a in bb.ids:
                    if a[0] in ('self', 'new', 'param', 'attr'):
                        key = (a, tgt.attr)
                        self.heap[key] = join(self.heap.get(key), v, dep_only(v))
                self.event(fr, 'store', e, base=bb, attr=tgt.attr, val=v, elem=True, aug=False)
            return NONE
        if name == 'items' and recv[0] != 'c':
            d = frozenset([recv])
            return Val(EMPTY, d)
        if recv[0] in ('attr', 'param', 'new', 'self', 'el', 'item', 'comp', 'call'):
            self.event(fr, 'mcall', e, recv=recv, name=name, args=args, kw=kw)
        if name in ('copy', 'astype', 'reshape', 'flatten', 'squeeze', 'ravel', 'view'):
            return Val(frozenset([recv]) if recv[0] in ('attr', 'xr', 'param', 'tup') else EMPTY, dep_only(Val(frozenset([recv])), *args).deps)
        r = dep_only(Val(frozenset([recv])), *args, *kw.values())
        if self.adepth(recv) < 3:
            return Val(frozenset([('call', self.site(fr, e), name)]), r.deps)
        return r

    def in_loop(self, fr):
        return any(isinstance(c[1], ast.expr) and c[3] == fr.fn.qual for c in self.ctrl)

    def site(self, fr, e):
        ctx = tuple(fr.ctx[-4:])
        return (fr.fn.qual if fr.fn else fr.mod.name, e.lineno, e.col_offset, ctx)

    def new_xnode(self, fr, e, tagv, parentv):
        atom = ('xn', self.site(fr, e))
        n = self.xnodes.get(atom)
        if n is None:
            n = self.xnodes[atom] = XNode(atom[1], fr.fn, e, self.ctrl, fr.ctx)
        for t in tagv.tags() or ['?']:
            n.tags.add(self.strip(t))
        if parentv is not None:
            for a in parentv.ids:
                if a[0] in ('xn', 'param', 'xr', 'root', 'attr'):
                    n.parents.add(a)
        self.event(fr, 'xmlnew', e, node=atom, parent=parentv)
        return Val(frozenset([atom]))

    def call_builtin(self, fr, name, args, kw, e):
        h = self.intr.get('builtins.' + name)
        if h is not None:
            return h(self, fr, e, args, kw, None)
        if name == 'getattr' and len(args) >= 2:
            outs = []
            for t in args[1].tags():
                outs.append(self.getattr_(fr, args[0], t, e))
            if len(args) > 2:
                outs.append(args[2])
            if not outs:
                return dep_only(*args)
            return join(*outs)
        if name == 'setattr' and len(args) >= 3:
            for t in args[1].tags() or ['?']:
                self.store_attr(fr, args[0], t, args[2], e)
            return NONE
        if name == 'range':
            if len(args) == 1 and args[0].only_consts() and len(args[0].ids) == 1 and not args[0].deps:
                n = args[0].consts()[0]
                if isinstance(n, int) and 0 < n <= 4:
                    return Val(frozenset([('tup', tuple(const(i) for i in range(n)))]))
            return dep_only(*args)
        if name == 'enumerate' and args:
            el = self.literal_elts(args[0])
            if el is not None:
                return Val(frozenset([('tup', tuple(Val(frozenset([('tup', (const(i), x))])) for i, x in enumerate(el)))]))
            el = self.element(args[0])
            return Val(frozenset([('tup', (Val(frozenset([('tup', (Val(EMPTY, frozenset()), el))])),))]), frozenset([('seq',)]))
        if name == 'zip' and args:
            els = [self.literal_elts(a) for a in args]
            if all(x is not None for x in els):
                return Val(frozenset([('tup', tuple(Val(frozenset([('tup', t)])) for t in zip(*els)))]))
            return Val(frozenset([('tup', (Val(frozenset([('tup', tuple(self.element(a) for a in args))])),))]), frozenset([('seq',)]))
        if name in ('list', 'tuple', 'sorted', 'reversed', 'set', 'frozenset', 'iter'):
            if not args:
                return Val(frozenset([('tup', ())]))
            return Val(args[0].ids, args[0].deps)
        if name == 'dict':
            if not args and kw and '**' not in kw:
                return Val(frozenset([('dict', tuple((const(k), v) for k, v in kw.items()))]))
            if not args:
                return Val(frozenset([('dict', ())]))
        if name in ('str', 'int', 'float', 'bool', 'repr') and args:
            if args[0].only_consts() and not args[0].deps and name == 'str':
                return Val(frozenset(('c', str(c), 'str') for c in args[0].consts()))
            d = dep_only(args[0])
            return Val(frozenset(a for a in args[0].ids if a[0] in ('xv', 'attr', 'param', 'item', 'comp')), d.deps)
        if name == 'len':
            return dep_only(*args)
        if name == 'isinstance' and len(args) == 2:
            return dep_only(*args)
        if name == 'hasattr':
            return dep_only(*args)
        r = dep_only(*args, *kw.values())
        return r

    PASS = ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray')

    def call_ext(self, fr, name, args, kw, e):
        r = dep_only(*args, *kw.values())
        ids = frozenset([('call', self.site(fr, e), name)]) if fr.fn is not None else EMPTY
        if name in self.PASS and args:
            return Val(frozenset(a for a in args[0].ids if a[0] in ('attr', 'param', 'tup', 'item', 'xv')), r.deps)
        return Val(ids, r.deps)

    def construct(self, fr, q, args, kw, e):
        h = self.intr.get(q)
        if h is not None:
            return h(self, fr, e, args, kw, None)
        atom = ('new', self.site(fr, e), q)
        self.event(fr, 'construct', e, cls=q, args=args, kw=kw)
        # attributes keep provenance of all constructor arguments
        return Val(frozenset([atom]), dep_only(*args, *kw.values()).deps)

    def bind(self, fn, args, kw, skip_self=False):
        """bind call args to parameters -> dict (missing ones absent)."""
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        b = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                b[pos[i]] = v
            else:
                extra.append(v)
        for k, v in kw.items():
            if k == '**':
                continue
            if k in fn.params:
                b[k] = v
            else:
                extra.append(v)
        if a.vararg and extra:
            b[a.vararg.arg] = Val(frozenset([('tup', tuple(extra))])) if not kw else dep_only(*extra)
        if a.kwarg:
            b[a.kwarg.arg] = dep_only(*[v for k, v in kw.items() if k not in fn.params])
        return b

    def call_fn(self, fr, fn, args, kw, e, recv):
        h = self.intr.get(fn.qual) or self.intr.get('.' + fn.name if recv is not None else '')
        if h is not None:
            full = list(args)
            for p in fn.params[len(full):]:
                if p not in kw:
                    break
                full.append(kw[p])
            r = h(self, fr, e, full, kw, recv)
            if r is not None:
                return r
        argv = dep_only(*args, *kw.values())
        opaque = Val(frozenset([('call', self.site(fr, e), fn.qual)]), argv.deps)
        if fr.depth >= self.MAX_DEPTH or fn.qual in self.stack:
            return opaque
        if fn.qual not in self.relevant and self.size(fn) > self.small:
            return opaque
        binds = self.bind(fn, args, kw)
        for p in fn.params:
            if p not in binds:
                d = fn.default_of(p)
                if d is not None:
                    binds[p] = self.ev(Frame(None, {}, None, None, (), 5, mod=fn.module), d)
                else:
                    binds[p] = kw.get('**', BOT)
        selfatom = None
        cls = None
        if fn.kind in ('method', 'class') and fn.cls is not None and fn.params:
            sv = binds.get(fn.params[0], BOT)
            sa = [x for x in sv.ids if x[0] in ('self', 'new', 'param', 'attr', 'el', 'ref')]
            selfatom = sa[0] if sa else None
            if selfatom is not None:
                cls = self.typeof(selfatom) if selfatom[0] != 'ref' else self.repo.classes.get(selfatom[2])
            cls = cls or fn.cls
        memo_key = None
        if fn.qual not in self.relevant:
            # pure small helper: memoise on arguments
            memo_key = (fn.qual, tuple(sorted((k, v) for k, v in binds.items()) if False else tuple((k, binds[k]) for k in sorted(binds))))
            r = self._small_memo.get(memo_key)
            if r is not None and r[0] == len(self.heap):
                return r[1]
        ctx = fr.ctx + ((fr.fn.qual if fr.fn else fr.mod.name, e.lineno, e.col_offset),)
        clo = getattr(self, '_closures', {}).get(fn.qual)
        ret = self._run(fn, binds, selfatom, cls, ctx, fr.depth + 1, clo)
        if memo_key is not None:
            self._small_memo[memo_key] = (len(self.heap), ret)
        return ret


def relevant_closure(repo, seed_names, seed_quals=()):
    """Fn quals whose body may (transitively, by name) reach a call to one of the seed names: an over-approximation used to decide inlining."""
    by_name = {}
    called = {}
    for f in repo.fns.values():
        by_name.setdefault(f.name, []).append(f.qual)
        s = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    s.add(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    s.add(n.func.id)
            elif isinstance(n, ast.Attribute):
                s.add('@' + n.attr)
        called[f.qual] = s
    rel = set(seed_quals)
    names = set(seed_names)
    changed = True
    prop_names = {f.name for f in repo.fns.values() if f.is_prop}
    while changed:
        changed = False
        for q, s in called.items():
            if q in rel:
                continue
            if s & names:
                rel.add(q)
                nm = repo.fns[q].name
                add = '@' + nm if repo.fns[q].is_prop else nm
                if nm == '__init__':
                    changed = True
                    continue
                if add not in names:
                    names.add(add)
                changed = True
    return rel
