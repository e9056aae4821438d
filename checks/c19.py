"""C19: every internal call is well formed (names, attributes and arguments resolve)."""

import ast

from sa.repo import Fn, Cls, walk_own, local_names, BUILTINS
from sa.interp import MODEL
from sa.btypes import Local

MODEL_NAMES = ('model', 'parent_model')


class Ctx:
    """attribute tables of classes: every attribute name that may exist on an instance."""

    def __init__(self, repo):
        self.repo = repo
        self.own = {}
        self.dynamic = set()
        # attributes assigned on self (or on the first parameter of module level helpers given an instance)
        self.anywhere = set()
        for f in repo.fns.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.anywhere.add(n.attr)
                    if f.cls is not None and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                        self.own.setdefault(f.cls.qual, set()).add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.anywhere.add(n.args[1].value)
                    elif f.cls is not None:
                        self.dynamic.add(f.cls.qual)
                elif isinstance(n, ast.keyword) and n.arg == 'array_attribute' and isinstance(n.value, ast.Constant):
                    self.anywhere.add(n.value.value)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    self.strings = getattr(self, 'strings', set())
                    self.strings.add(n.value)

    def family(self, c):
        fam = list(self.repo.mro(c))
        for s in self.repo.subclasses(c):
            for k in self.repo.mro(s):
                if k not in fam:
                    fam.append(k)
        return fam

    def has_attr(self, c, name, lexical=None):
        """may an instance of (a subclass of) c have attribute `name`?"""
        if name.startswith('__') and name.endswith('__'):
            return True
        for k in self.family(c):
            if name in k.methods or name in k.attrs or name in k.setters or name in self.own.get(k.qual, ()):
                return True
            if self.repo.has_unknown_base(k):
                return True
        return False


def bind_errors(f, call, bound_self):
    """list of argument errors of a call to Fn f."""
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if bound_self:
        pos = pos[1:]
    kwonly = [p.arg for p in a.kwonlyargs]
    errs = []
    has_star = any(isinstance(x, ast.Starred) for x in call.args)
    has_kw = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        errs.append(f'{npos} positional arguments given, at most {len(pos)} accepted')
    given = set(pos[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            errs.append(f'argument {k.arg} given twice')
        elif k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            errs.append(f'unexpected keyword argument {k.arg}')
        given.add(k.arg)
    if not has_star and not has_kw:
        for p in pos + kwonly:
            if p not in given and f.default_of(p) is None:
                errs.append(f'required argument {p} not supplied')
    return errs


def local_types(repo, f):
    """variables of f whose every assignment constructs the same repository class."""
    cand = {}
    bad = set(f.params)
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    c = None
                    if isinstance(n.value, ast.Call):
                        r = repo.resolve_expr(f, n.value.func, ())
                        if r and r[0] == 'cls':
                            c = r[1]
                    if isinstance(n.value, ast.Constant) and n.value.value is None:
                        continue
                    if c is None:
                        bad.add(t.id)
                    else:
                        cand.setdefault(t.id, set()).add(c.qual)
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            bad.add(x.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            pass
        if isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    bad.add(x.id)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    bad.add(x.id)
        elif isinstance(n, (ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
            bad.add(n.target.id)
    return {k: repo.classes[next(iter(v))] for k, v in cand.items() if k not in bad and len(v) == 1}


def dead_branch_nodes(f):
    """nodes under hasattr(...) guards are not checked for attribute existence."""
    out = set()
    for n in walk_own(f.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.BoolOp)):
            txt = ast.unparse(n.test if not isinstance(n, ast.BoolOp) else n)
            if 'hasattr(' in txt:
                for x in ast.walk(n):
                    out.add(id(x))
        elif isinstance(n, ast.Try):
            # attribute probing inside try: ... except AttributeError
            if any(h.type is not None and 'AttributeError' in ast.unparse(h.type) for h in n.handlers):
                for s in n.body:
                    for x in ast.walk(s):
                        out.add(id(x))
    return out


def scope_names(repo, f):
    names = set(local_names(f))
    p = f.parent
    while p is not None:
        names |= local_names(p)
        p = p.parent
    # methods of classes defined inside functions see the names of the enclosing functions
    p = f.cls
    if p is not None and '<locals>' in f.qual:
        q = f.qual
        while '.<locals>.' in q:
            q = q.rsplit('.<locals>.', 1)[0]
            if q in repo.fns:
                names |= set(local_names(repo.fns[q]))
    # comprehension targets and lambda parameters
    for n in walk_own(f.node):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        elif isinstance(n, ast.Lambda):
            for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                names.add(x.arg)
            if n.args.vararg:
                names.add(n.args.vararg.arg)
            if n.args.kwarg:
                names.add(n.args.kwarg.arg)
        elif isinstance(n, ast.Global):
            names.update(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    pass
    return names


def check(chk):
    repo = chk.repo
    chk.rule('(a) every global name used in a function resolves to a binding of its module, a builtin or an import; '
             '(b) every attribute taken from a module of the package exists there; '
             '(c) every method or attribute read from self, a model, or a variable holding a known class exists on the class or is assigned to its instances; '
             '(d) the arguments of every call whose callee resolves to a function, method or class of the package bind to its signature; '
             '(e) every name imported from a module of the package exists.')
    cx = Ctx(repo)
    model = repo.cls(MODEL)
    nfn = ncalls = nattr = nnames = nimp = 0

    def owner_key(f):
        return f.short

    # imports (module level and local)
    for m in repo.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = repo._from_base(m, n)
                if base in repo.mods:
                    for a in n.names:
                        if a.name == '*':
                            continue
                        nimp += 1
                        ok = repo.resolve_in_mod(base, a.name) is not None or f'{base}.{a.name}' in repo.mods
                        chk.check(ok, f'import {m.name} {base}.{a.name}', f'{m.path}:{n.lineno}', f'{base} does not define {a.name}')
                elif base.split('.')[0] == 'resqpy':
                    nimp += 1
                    chk.bad(f'import {m.name} {base}', f'{m.path}:{n.lineno}', f'module {base} does not exist')
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == 'resqpy':
                        nimp += 1
                        chk.check(a.name in repo.mods, f'import {m.name} {a.name}', f'{m.path}:{n.lineno}', f'module {a.name} does not exist')

    for f in repo.all_fns():
        nfn += 1
        names = scope_names(repo, f)
        guard = dead_branch_nodes(f)
        types = local_types(repo, f)
        selfname = f.params[0] if f.cls is not None and f.kind == 'method' and f.params else None
        if f.parent is not None:
            p = f
            while p.parent is not None:
                p = p.parent
            if p.cls is not None and p.kind == 'method' and p.params and p.params[0] not in local_names(f):
                selfname = p.params[0]
        rebound = {x.id for x in walk_own(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in names:
                    continue
                nnames += 1
                ok = (n.id in BUILTINS or n.id == '__class__' or repo.resolve_in_mod(f.module.name, n.id) is not None or
                      repo.resolve_expr(f, n) is not None)
                if not ok and _global_declared(repo, f.module, n.id):
                    ok = True
                chk.check(ok, f'name {owner_key(f)} {n.id}', f'{f.path}:{n.lineno}', f'{n.id} is not defined where {f.short} uses it')
            elif isinstance(n, ast.Attribute):
                base = n.value
                # module attribute
                ent = None
                if isinstance(base, (ast.Name, ast.Attribute)):
                    root = base
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    if isinstance(root, ast.Name) and (root.id not in names or root.id in repo.local_imports(f)):
                        ent = repo.resolve_expr(f, base)
                if ent is not None and ent[0] == 'mod' and ent[1] in repo.mods:
                    nattr += 1
                    if n.attr.startswith('__') and n.attr.endswith('__'):
                        continue
                    ok = repo.resolve_attr(ent, n.attr) is not None or _global_declared(repo, repo.mods[ent[1]], n.attr)
                    chk.check(ok, f'modattr {owner_key(f)} {ent[1]}.{n.attr}', f'{f.path}:{n.lineno}',
                              f'module {ent[1]} has no attribute {n.attr} (used by {f.short})')
                    continue
                if not isinstance(n.ctx, ast.Load) or id(n) in guard:
                    continue
                c = None
                if isinstance(base, ast.Name) and base.id == selfname and base.id not in rebound:
                    q = f
                    while q.parent is not None:
                        q = q.parent
                    c = q.cls
                elif isinstance(base, ast.Name) and base.id in types:
                    c = types[base.id]
                elif isinstance(base, ast.Name) and base.id in MODEL_NAMES and base.id in f.params:
                    c = model
                elif isinstance(base, ast.Attribute) and base.attr in MODEL_NAMES and isinstance(base.value, ast.Name):
                    c = model
                if c is not None:
                    nattr += 1
                    at = n.attr
                    chk.check(cx.has_attr(c, at) or (c is not model and isinstance(base, ast.Name) and base.id != selfname and at in cx.anywhere) or
                              (at in cx.anywhere and base is not None and not (isinstance(base, ast.Name) and base.id == selfname)) or
                              (isinstance(base, ast.Name) and base.id == selfname and at in cx.anywhere and _assigned_on_instances(repo, c, at)),
                              f'attr {owner_key(f)} {c.name}.{at}', f'{f.path}:{n.lineno}',
                              f'{c.name} has no attribute or method {at}, which {f.short} uses')
            if isinstance(n, ast.Call):
                r = _callee(repo, cx, f, n, names, types, selfname, model, rebound)
                if r is None:
                    continue
                g, bound = r
                ncalls += 1
                errs = bind_errors(g, n, bound)
                if errs:
                    for er in errs:
                        chk.bad(f'call {owner_key(f)} -> {g.short}: {er}', f'{f.path}:{n.lineno}', f'call of {g.short} in {f.short}: {er}')
                else:
                    chk.ok(f'{f.path}:{n.lineno} {f.short} -> {g.short}' if ncalls % 700 == 1 else None)
    nops = 0
    for f in repo.all_fns():
        bad, n = Local(f).faults()
        nops += n
        for x, text in bad:
            chk.bad(f'type {owner_key(f)} {text}', f'{f.path}:{getattr(x, "lineno", f.node.lineno)}', f'{text} (in {f.short})')
    chk.floor('operations on values of builtin types judged', nops, 1000)
    chk.floor('functions analysed', nfn, 1500)
    chk.floor('internal call sites bound', ncalls, 4000)
    chk.floor('attribute uses resolved', nattr, 8000)
    chk.floor('global names resolved', nnames, 10000)
    chk.floor('internal imports resolved', nimp, 500)
    chk.assumptions.append('Calls through values whose class cannot be determined syntactically are not bound.')


def _assigned_on_instances(repo, c, at):
    """attribute assigned through a non-self variable in a module of the same package (delegated helper functions)."""
    pk = c.module.name.rsplit('.', 1)[0]
    key = (id(repo), pk)
    tab = _INST.get(key)
    if tab is None:
        tab = _INST[key] = set()
        for f in repo.fns.values():
            if f.module.name.startswith(pk) or f.module.name.startswith('resqpy.olio'):
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        # stores through self belong to the class of the method (counted per class)
                        if not (f.cls is not None and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')):
                            tab.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        tab.add(n.args[1].value)
                    elif isinstance(n, ast.keyword) and n.arg == 'array_attribute' and isinstance(n.value, ast.Constant):
                        tab.add(n.value.value)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and len(n.value) > 3:
                        tab.add('"' + n.value)
    return at in tab or '"' + at in tab


_INST = {}
_GLOB = {}


def _global_declared(repo, m, name):
    t = _GLOB.get((id(repo), m.name))
    if t is None:
        t = _GLOB[(id(repo), m.name)] = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                t.update(n.names)
    return name in t


def _callee(repo, cx, f, call, names, types, selfname, model, rebound):
    """(Fn, bound_self) of a call, or None."""
    fu = call.func
    ent = None
    if isinstance(fu, ast.Name):
        if fu.id in names and fu.id not in repo.local_imports(f):
            # nested function, unless rebound
            ent = repo.resolve_expr(f, fu)
            if ent is None or ent[0] != 'fn' or ent[1].parent is None:
                return None
            stores = [x for x in walk_own(f.node) if isinstance(x, ast.Name) and x.id == fu.id and isinstance(x.ctx, ast.Store)]
            if stores or fu.id in f.params:
                return None
        else:
            ent = repo.resolve_expr(f, fu)
    elif isinstance(fu, ast.Attribute):
        b = fu.value
        root = b
        while isinstance(root, ast.Attribute):
            root = root.value
        c = None
        if isinstance(b, ast.Name) and b.id == selfname and b.id not in rebound:
            q = f
            while q.parent is not None:
                q = q.parent
            c = q.cls
        elif isinstance(b, ast.Name) and b.id in types:
            c = types[b.id]
        elif isinstance(b, ast.Name) and b.id in MODEL_NAMES and b.id in f.params:
            c = model
        elif isinstance(b, ast.Attribute) and b.attr in MODEL_NAMES and isinstance(b.value, ast.Name):
            c = model
        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and f.cls is not None and f.kind != 'static':
            for k in repo.mro(f.cls)[1:]:
                if fu.attr in k.methods:
                    g = k.methods[fu.attr]
                    # cooperative overriding: siblings might come next in a subclass's order, which this package does not use
                    return (g, g.kind != 'static')
            return None
        if c is not None:
            g = repo.find_method(c, fu.attr)
            if fu.attr.startswith('__') and not fu.attr.endswith('__') and f.cls is not None:
                g = f.cls.methods.get(fu.attr, g)
            if g is None or g.is_prop:
                return None
            if b.id == selfname if isinstance(b, ast.Name) else False:
                # overridden with another signature in a subclass: the base version is what the class itself must satisfy
                pass
            if fu.attr in cx.own.get(c.qual, ()):
                return None
            return (g, g.kind != 'static')
        if isinstance(root, ast.Name) and (root.id not in names or root.id in repo.local_imports(f)):
            ent = repo.resolve_expr(f, fu)
            if ent is not None and ent[0] == 'fn' and ent[1].cls is not None and ent[1].parent is None:
                g = ent[1]
                return (g, g.kind == 'class')
    if ent is None:
        return None
    if ent[0] == 'fn':
        g = ent[1]
        decs = [ast.unparse(d) for d in g.node.decorator_list]
        if any(not (d.startswith('njit') or d.startswith('jit') or 'lru_cache' in d or 'numba' in d or d in ('staticmethod', 'classmethod') or 'deprecat' in d)
               for d in decs):
            return None
        return (g, False)
    if ent[0] == 'cls':
        init = repo.find_method(ent[1], '__init__')
        if init is None or repo.has_unknown_base(ent[1]):
            return None
        return (init, True)
    return None
