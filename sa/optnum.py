"""Which values are a number or None ('optional numbers'), by type inference over the package; and the places where such a value is tested for truth."""

import ast
import re

from .repo import Fn

NUM = re.compile(r'\b(int|integer|float|number|numeric|double)\b')
BAD = re.compile(r'\b(array|list|tuple|dict|bool|boolean|str|string|triple|pair|bytes|ndarray|of|callable|sequence|dataframe|numpy|or|function)\b', re.I)
# names documented as numbers which elsewhere stand for other things, and names of numbers which are a field of xml or of a property
VAGUE = {'next_date_index', 'polarity', 'value', 'start', 'offset', 'width', 'height', 'radius', 'centre', 'n', 'border', 'box_xyz', 'cell_range', 'count'}
KNOWN = {'realization', 'time_index', 'const_value', 'null_value', 'min_value', 'max_value', 'minimum_value', 'maximum_value', 'maximum_throw', 'mean_dip', 'mean_azimuth',
         'min_index', 'max_index', 'ref_k0', 'time_series_index', 'grid_index', 'cell_index', 'stratigraphic_units_index', 'ordering_index'}
SUFFIX = re.compile(r'_(index|realization|thickness|throw|azimuth|dip|k0)$')
N, Z, O = 'num', 'none', 'other'
NUMERIC_FNS = {'int', 'float', 'len', 'round', 'ord', 'hash'}
SAME_FNS = {'abs', 'min', 'max', 'sum'}
NP_NUM = {'sum', 'mean', 'nanmean', 'nanmin', 'nanmax', 'min', 'max', 'count_nonzero', 'prod', 'float64', 'int64', 'int32', 'float32'}


class OptNum:

    def __init__(self, repo):
        self.repo = repo
        self.pt = {}
        self.ret = {}        # qual -> frozenset of kinds
        self.attr = {}       # (class family root quals) by attribute name within class qual -> kinds
        self.local = {}
        self.fns = list(repo.all_fns())
        self.byname = {}
        self.numnames = self.number_names()
        for f in self.fns:
            if f.cls is not None and f.parent is None:
                self.byname.setdefault(f.name, []).append(f)
        for f in self.fns:
            self.ret[f.qual] = frozenset()
        for _ in range(4):
            self.attr2 = {}
            self.local = {}
            old = dict(self.ret)
            for f in self.fns:
                self.scan(f)
            self.attr = {k: frozenset(v) for k, v in self.attr2.items()}
            if old == self.ret:
                break

    def number_names(self):
        """parameter names which, wherever they are documented with a type (in at least two functions), are a number."""
        yes, no = {}, {}
        for f in self.fns:
            for p in f.params:
                m = re.search(r'^\s*[-*]?\s*%s\s*:?\s*\(([^)\n]*)' % re.escape(p), f.doc(), re.M)
                if m:
                    d = yes if NUM.search(m.group(1)) and not BAD.search(re.split(r',|default', re.sub(r'\bor None\b|\bor (int|float)\b', '', m.group(1)))[0]) else no
                    d[p] = d.get(p, 0) + 1
        return {p for p, n in yes.items() if n >= (1 if '_' in p.strip('_') else 2) and not no.get(p)} - VAGUE | KNOWN

    def named(self, name):
        return name in self.numnames or bool(SUFFIX.search(name)) and name not in VAGUE

    # ---- declared
    def param(self, f, p):
        k = (f.qual, p)
        if k not in self.pt:
            self.pt[k] = self._param(f, p)
        return self.pt[k]

    def _param(self, f, p):
        a = f.node.args
        allp = a.posonlyargs + a.args
        dfl = dict(zip([x.arg for x in allp[len(allp) - len(a.defaults):]], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        none = {Z} if p in dfl and isinstance(dfl[p], ast.Constant) and dfl[p].value is None else set()
        for x in allp + a.kwonlyargs:
            if x.arg == p and x.annotation is not None:
                t = ast.unparse(x.annotation)
                if NUM.search(t) and not re.search(r'List|Tuple|rray|Dict|bool|str', t):
                    return frozenset({N} | none | ({Z} if 'Optional' in t or 'None' in t else set()))
                return frozenset({O} | none)
        doc = f.doc() + ('\n' + f.cls.doc() if f.cls is not None and f.name == '__init__' and hasattr(f.cls, 'doc') else '')
        m = re.search(r'^\s*[-*]?\s*%s\s*:?\s*\(([^)\n]*)' % re.escape(p), doc, re.M)
        if m and NUM.search(m.group(1)) and not BAD.search(re.split(r',|default', re.sub(r'\bor None\b|\bor (int|float)\b', '', m.group(1)))[0]):
            return frozenset({N} | none | ({Z} if re.search(r'optional|None', m.group(1)) else set()))
        if not m and (self.named(p) or self.used_as_number(f, p)):
            return frozenset({N, Z})
        return frozenset({O} | none)

    @staticmethod
    def used_as_number(f, p):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                    if isinstance(a, ast.Name) and a.id == p and isinstance(b, ast.Constant) and isinstance(b.value, (int, float)):
                        return True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and any(isinstance(a, ast.Name) and a.id == p for a in n.args):
                return True
        return False

    # ---- inference
    def scan(self, f):
        env = {}
        outer = self.local.get(f.parent.qual, {}) if f.parent is not None else {}
        for p in f.params:
            env[p] = set(self.param(f, p))
        asg = []
        for n in _own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    asg.append((t, n.value))
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                asg.append((n.target, n.value))
            elif isinstance(n, ast.NamedExpr):
                asg.append((n.target, n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2:
                    asg.append((n.target.elts[0], 'range'))
                    asg.append((n.target.elts[1], None))
                    continue
                asg.append((n.target, 'range' if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' else None))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        asg.append((i.optional_vars, None))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                env.setdefault(n.name, set()).add(O)
        for _ in range(3):
            ch = False
            for t, v in asg:
                pairs = [(t, v)]
                if isinstance(t, (ast.Tuple, ast.List)):
                    pairs = list(zip(t.elts, v.elts)) if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [(x, None) for x in t.elts]
                for x, y in pairs:
                    if isinstance(x, ast.Starred):
                        x, y = x.value, None
                    ks = {N} if y == 'range' else {O} if y is None else self.kind(f, y, env, outer)
                    if isinstance(x, ast.Name):
                        s = env.setdefault(x.id, set())
                        if not ks <= s:
                            s |= ks
                            ch = True
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and f.cls is not None and f.params and x.value.id == f.params[0]:
                        self.attr2.setdefault((f.cls.qual, x.attr), set()).update(ks)
                    elif isinstance(x, (ast.Tuple, ast.List)):
                        for z in ast.walk(x):
                            if isinstance(z, ast.Name):
                                env.setdefault(z.id, set()).add(O)
            if not ch:
                break
        self.local[f.qual] = {**outer, **env}
        rs = set()
        gen = False
        for n in _own(f.node):
            if isinstance(n, ast.Return):
                rs |= {Z} if n.value is None else self.kind(f, n.value, env, outer)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
        self.ret[f.qual] = frozenset({O} if gen else rs)

    def kind(self, f, e, env, outer=None):
        outer = outer or {}
        k = lambda x: self.kind(f, x, env, outer)
        if isinstance(e, ast.Constant):
            return {Z} if e.value is None else {N} if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else {O}
        if isinstance(e, ast.Name):
            ks = set(env.get(e.id) or outer.get(e.id) or {O})
            return {N, Z} if self.named(e.id) and O in ks and (e.id not in f.params or N in self.param(f, e.id)) else ks
        if isinstance(e, ast.IfExp):
            return k(e.body) | k(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= k(v)
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            return k(e.operand)
        if isinstance(e, ast.BinOp):
            return {N} if k(e.left) - {Z} == {N} and k(e.right) - {Z} == {N} else {O}
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id in NUMERIC_FNS:
                return {N}
            if isinstance(fn, ast.Name) and fn.id in SAME_FNS:
                return {N} if e.args and all(k(a) == {N} for a in e.args) else {O}
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'np' and fn.attr in NP_NUM and len(e.args) == 1 and not e.keywords:
                return {N}
            g = self.callee(f, fn)
            if g is not None:
                return set(self.ret.get(g.qual, {O})) or {O}
            return {O}
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0]:
            out = set()
            for c in self.repo.mro(f.cls):
                out |= self.attr.get((c.qual, e.attr), set())
            out = out or {O}
            return {N, Z} if self.named(e.attr) and O in out else out
        if isinstance(e, ast.Attribute) and self.named(e.attr):
            return {N, Z}
        return {O}

    def callee(self, f, fn):
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.params and fn.value.id == f.params[0]:
            return self.repo.find_method(f.cls, fn.attr)
        r = self.repo.resolve_expr(f, fn)
        if r is not None and r[0] == 'fn':
            return r[1]
        if isinstance(fn, ast.Attribute) and r is None:
            gs = self.byname.get(fn.attr, ())
            if gs and len({self.ret[g.qual] for g in gs}) == 1:
                return gs[0]
        return None

    # ---- tests
    def sites(self, f):
        """(expression, node) where an optional number decides by its truth."""
        env = self.local.get(f.qual, {})
        out = []
        for n in _own(f.node):
            for t in _tests(n):
                ks = self.kind(f, t, env)
                if N in ks and Z in ks and O not in ks:
                    out.append((t, n))
        seen, res = set(), []
        for t, n in out:
            if id(t) not in seen:
                seen.add(id(t))
                res.append((t, n))
        return res


def _own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def _truth(n):
    if isinstance(n, ast.BoolOp):
        for v in n.values:
            yield from _truth(v)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield from _truth(n.operand)
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'bool' and n.args:
        yield from _truth(n.args[0])
    else:
        yield n


def _tests(n):
    if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
        yield from _truth(n.test)
    elif isinstance(n, ast.BoolOp):
        for v in n.values[:-1]:
            yield from _truth(v)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield from _truth(n.operand)
    elif isinstance(n, ast.comprehension):
        for v in n.ifs:
            yield from _truth(v)
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'bool' and n.args:
        yield from _truth(n.args[0])
