"""Loader and name resolver for the Python source tree under analysis (pure ast: nothing is imported or run)."""

import ast
import builtins
import os
import symtable

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'resqpy'

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}


class AnalysisBroken(Exception):
    """An anchor that a check relies on has vanished: the check has no verdict."""


class Fn:
    """A function, method or nested function."""
    __slots__ = ('qual', 'module', 'cls', 'node', 'parent', 'params', 'lineno', 'kind', 'is_prop', 'setter')

    def __init__(self, qual, module, cls, node, parent):
        self.qual = qual
        self.module = module
        self.cls = cls          # lexical class (Cls) or None
        self.node = node
        self.parent = parent    # enclosing Fn or None
        self.lineno = node.lineno
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.kind = ('static' if 'staticmethod' in decs else 'class' if 'classmethod' in decs else
                     'method' if cls is not None and parent is None else 'function')
        self.is_prop = any(d == 'property' or d.endswith('cached_property') for d in decs)
        self.setter = any(d.endswith('.setter') for d in decs)
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def name(self):
        return self.node.name

    @property
    def path(self):
        return self.module.path

    def loc(self, node=None):
        return f'{self.path}:{(node if node is not None else self.node).lineno}'

    @property
    def short(self):
        return self.qual[len(PKG) + 1:]

    def __repr__(self):
        return f'<Fn {self.qual}>'

    def doc(self):
        return ast.get_docstring(self.node) or ''

    def default_of(self, pname):
        """ast node of default, or None if no default."""
        a = self.node.args
        pos = a.posonlyargs + a.args
        off = len(pos) - len(a.defaults)
        for i, p in enumerate(pos):
            if p.arg == pname:
                return a.defaults[i - off] if i >= off else None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == pname:
                return d
        return None


class Cls:
    __slots__ = ('qual', 'module', 'node', 'base_exprs', 'methods', 'attrs', 'setters', 'bases', 'parent')

    def __init__(self, qual, module, node):
        self.qual = qual
        self.module = module
        self.node = node
        self.methods = {}   # name -> Fn (last definition, getter preferred for properties)
        self.setters = {}
        self.attrs = {}     # class-level assignments name -> ast value
        self.bases = None

    @property
    def name(self):
        return self.node.name

    def __repr__(self):
        return f'<Cls {self.qual}>'


class Mod:
    __slots__ = ('name', 'path', 'tree', 'src', 'is_pkg', 'names', 'fns', 'classes', 'assigns', 'star', 'lines')

    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, filename=path)
        self.names = {}     # name -> ('mod', modname) | ('from', modname, symbol) | ('fn', Fn) | ('cls', Cls) | ('var', ast)
        self.fns = {}
        self.classes = {}
        self.assigns = {}
        self.star = []

    def __repr__(self):
        return f'<Mod {self.name}>'


class Repo:

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.fns = {}       # qual -> Fn  (all, including nested)
        self.classes = {}
        self._load()
        self._mro = {}
        self._sub = None

    # ---------------------------------------------------------------- loading
    def _load(self):
        top = os.path.join(self.root, PKG)
        if not os.path.isdir(top):
            raise AnalysisBroken(f'package directory {top} missing')
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                self.mods[rel] = Mod(rel, os.path.relpath(p, self.root), src, is_pkg)
        for m in self.mods.values():
            self._index(m)

    def _index(self, m):

        def scan(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names[a.asname] = ('mod', a.name)
                        else:
                            m.names.setdefault(a.name.split('.')[0], ('mod', a.name.split('.')[0]))
                elif isinstance(s, ast.ImportFrom):
                    base = self._from_base(m, s)
                    for a in s.names:
                        if a.name == '*':
                            m.star.append(base)
                        else:
                            m.names[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._add_fn(m, s, None, None, m.name)
                    m.fns[s.name] = f
                    m.names[s.name] = ('fn', f)
                elif isinstance(s, ast.ClassDef):
                    c = self._add_cls(m, s, m.name)
                    m.classes[s.name] = c
                    m.names[s.name] = ('cls', c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.assigns[n.id] = s.value
                                m.names.setdefault(n.id, ('var', s.value))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.assigns[s.target.id] = s.value
                    m.names.setdefault(s.target.id, ('var', s.value))
                elif isinstance(s, ast.If):
                    scan(s.body)
                    scan(s.orelse)
                elif isinstance(s, ast.Try):
                    scan(s.body)
                    for h in s.handlers:
                        scan(h.body)
                    scan(s.orelse)
                    scan(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                m.names.setdefault(n.id, ('var', None))
                    scan(s.body)

        scan(m.tree.body)

    @staticmethod
    def _from_base(m, s):
        if not s.level:
            return s.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))

    def _add_fn(self, m, node, cls, parent, prefix):
        q = f'{prefix}.{node.name}'
        f = Fn(q, m, cls, node, parent)
        if f.setter:
            q = q + '.setter'
            f.qual = q
        self.fns[q] = f
        for n in self._direct_defs(node):
            if isinstance(n, ast.ClassDef):
                self._add_cls(m, n, q + '.<locals>')
            else:
                self._add_fn(m, n, cls, f, q + '.<locals>')
        return f

    @staticmethod
    def _direct_defs(node):
        out = []
        stack = list(ast.iter_child_nodes(node))
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(n)
            elif isinstance(n, ast.Lambda):
                pass
            else:
                stack.extend(ast.iter_child_nodes(n))
        return out

    def _add_cls(self, m, node, prefix):
        q = f'{prefix}.{node.name}'
        c = Cls(q, m, node)
        self.classes[q] = c

        def scan(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._add_fn(m, s, c, None, q)
                    if f.setter:
                        c.setters[s.name] = f
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.attrs[s.target.id] = s.value
                elif isinstance(s, ast.If):
                    scan(s.body)
                    scan(s.orelse)

        scan(node.body)
        return c

    # ------------------------------------------------------------- resolution
    def resolve_in_mod(self, modname, name, _seen=None):
        """resolve a global name of a module to ('mod', Mod|extname) / ('fn', Fn) / ('cls', Cls) / ('var', Mod, name) / ('ext', dotted) / None."""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        m = self.mods.get(modname)
        if m is None:
            return ('ext', f'{modname}.{name}')
        e = m.names.get(name)
        if e is None:
            if f'{modname}.{name}' in self.mods:
                return ('mod', f'{modname}.{name}')
            for b in m.star:
                r = self.resolve_in_mod(b, name, _seen)
                if r is not None:
                    return r
            return None
        if e[0] == 'mod':
            return ('mod', e[1])
        if e[0] == 'from':
            base, sym = e[1], e[2]
            if base in self.mods:
                r = self.resolve_in_mod(base, sym, _seen)
                if r is None and f'{base}.{sym}' in self.mods:
                    return ('mod', f'{base}.{sym}')
                return r
            return ('ext', f'{base}.{sym}')
        if e[0] == 'fn':
            return ('fn', e[1])
        if e[0] == 'cls':
            return ('cls', e[1])
        return ('var', m, name)

    def resolve_attr(self, ent, attr):
        """resolve attribute of a resolved entity."""
        if ent is None:
            return None
        if ent[0] == 'mod':
            if ent[1] in self.mods:
                r = self.resolve_in_mod(ent[1], attr)
                if r is None and f'{ent[1]}.{attr}' in self.mods:
                    return ('mod', f'{ent[1]}.{attr}')
                return r
            if any(k == f'{ent[1]}.{attr}' or k.startswith(f'{ent[1]}.{attr}.') for k in self.mods):
                return ('mod', f'{ent[1]}.{attr}')
            return ('ext', f'{ent[1]}.{attr}')
        if ent[0] == 'ext':
            return ('ext', f'{ent[1]}.{attr}')
        if ent[0] == 'cls':
            f = self.find_method(ent[1], attr)
            if f is not None:
                return ('fn', f)
            return None
        return None

    def resolve_expr(self, fn_or_mod, expr, local_names=()):
        """resolve a Name / dotted Attribute expression statically."""
        if isinstance(expr, ast.Name):
            if expr.id in local_names:
                return None
            m = fn_or_mod.module if isinstance(fn_or_mod, Fn) else fn_or_mod
            if isinstance(fn_or_mod, Fn):
                imp = self.local_imports(fn_or_mod)
                if expr.id in imp:
                    e = imp[expr.id]
                    if e[0] == 'mod':
                        return ('mod', e[1])
                    if e[1] in self.mods:
                        r = self.resolve_in_mod(e[1], e[2])
                        if r is None and f'{e[1]}.{e[2]}' in self.mods:
                            return ('mod', f'{e[1]}.{e[2]}')
                        return r
                    return ('ext', f'{e[1]}.{e[2]}')
                p = fn_or_mod
                while p is not None:
                    q = f'{p.qual}.<locals>.{expr.id}'
                    if q in self.fns:
                        return ('fn', self.fns[q])
                    if q in self.classes:
                        return ('cls', self.classes[q])
                    p = p.parent
            return self.resolve_in_mod(m.name, expr.id)
        if isinstance(expr, ast.Attribute):
            return self.resolve_attr(self.resolve_expr(fn_or_mod, expr.value, local_names), expr.attr)
        return None

    _li_cache = None

    def local_imports(self, fn):
        if self._li_cache is None:
            self._li_cache = {}
        r = self._li_cache.get(fn.qual)
        if r is None:
            r = {}
            for n in walk_own(fn.node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            r[a.asname] = ('mod', a.name)
                        else:
                            r[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    b = self._from_base(fn.module, n)
                    for a in n.names:
                        r[a.asname or a.name] = ('from', b, a.name)
            if fn.parent is not None:
                for k, v in self.local_imports(fn.parent).items():
                    r.setdefault(k, v)
            self._li_cache[fn.qual] = r
        return r

    # ---------------------------------------------------------------- classes
    def bases(self, c):
        if c.bases is None:
            c.bases = []
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == 'cls':
                    c.bases.append(r[1])
                elif r and r[0] == 'ext':
                    c.bases.append(r[1])
                else:
                    c.bases.append(ast.unparse(b))
        return c.bases

    def mro(self, c):
        r = self._mro.get(c.qual)
        if r is None:
            seqs = [self.mro(b)[:] for b in self.bases(c) if isinstance(b, Cls)]
            seqs.append([b for b in self.bases(c) if isinstance(b, Cls)])
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        del s[0]
            r = self._mro[c.qual] = out
        return r

    def has_unknown_base(self, c):
        for k in self.mro(c):
            for b in self.bases(k):
                if not isinstance(b, Cls) and b not in ('object',):
                    return True
        return False

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def subclasses(self, c):
        if self._sub is None:
            self._sub = {}
            for k in self.classes.values():
                for b in self.mro(k)[1:]:
                    self._sub.setdefault(b.qual, []).append(k)
        return self._sub.get(c.qual, [])

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            # allow resolution through package re-export
            mod, _, nm = qual.rpartition('.')
            r = self.resolve_in_mod(mod, nm) if mod in self.mods else None
            if r and r[0] == 'cls':
                return r[1]
            raise AnalysisBroken(f'class {qual} not found')
        return c

    def fn(self, qual):
        f = self.fns.get(qual)
        if f is None:
            mod, _, nm = qual.rpartition('.')
            if mod in self.mods:
                r = self.resolve_in_mod(mod, nm)
                if r and r[0] == 'fn':
                    return r[1]
            elif mod in self.classes:
                r = self.find_method(self.classes[mod], nm)
                if r is not None:
                    return r
            raise AnalysisBroken(f'function {qual} not found')
        return f

    def all_fns(self):
        return list(self.fns.values())


def walk_own(node):
    """walk a function body without descending into nested function / class definitions (lambdas and comprehensions are entered)."""
    stack = list(ast.iter_child_nodes(node))
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(fn):
    """names bound in the function's own scope (params + assigned), excluding globals."""
    out = set(fn.params)
    a = fn.node.args
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    glob = set()
    for n in walk_own(fn.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
    return out - glob
