"""Axes of the cells of a grid: which of the K, J and I directions an index, extent or array dimension belongs to."""

import ast
import re

from sa.repo import walk_own

CREATORS = ('zeros', 'ones', 'empty', 'full')


class Cells:
    """Directions of a grid of cells, which are ordered K, J, I."""
    order = {'k': 0, 'j': 1, 'i': 2}
    extent = re.compile(r'^_?n([kji])(1|_plus_1|_plus_k_gaps|p1)?$')      # names of extents
    param = re.compile(r'^(?:n([kji])|([kji])0?)$')                     # names of arguments
    named = re.compile(r'^(?:n([kji])(?:1|_plus_1|p1)?|([kji])0)$')                      # names which say enough by themselves
    weak = re.compile(r'^(?:n([kji])(?:1|_plus_1|p1)?|([kji])0?)$')              # names which do along with each other
    sequences = ('kji', 'ji', 'kj', 'ki', 'ijk')
    boxes = 'box'


class Space:
    """Directions of space, which are ordered x, y, z."""
    order = {'x': 0, 'y': 1, 'z': 2}
    extent = re.compile(r'^d([xyz])$')
    param = re.compile(r'^(?:d([xyz])|([xyz])\d?)$')
    named = re.compile(r'^(?:d([xyz])|([xyz]))$')
    weak = None
    sequences = ('xyz', 'dxyz', 'xy', 'dxy')
    boxes = 'box'


class Scope:
    """What the variables of a function stand for."""

    def __init__(self, axes, f):
        self.axes, self.f, self.repo, self.sys = axes, f, axes.repo, axes.system
        self.defs = {}
        self.loop = {}
        self.busy = set()
        self.memo = {}
        self.weak = None
        self._collect(f.node, [])
        ps = [p for p in f.params if self.sys.param.match(p)]
        dirs = {''.join(x for x in self.sys.param.match(p).groups() if x) for p in ps}
        self.param_axis = {}
        if self.sys.weak is not None:
            # the letters alone say enough where several of them are used
            vs = {m.group(1) or m.group(2) for n in walk_own(f.node) if isinstance(n, ast.Name) for m in [self.sys.weak.match(n.id)] if m}
            strong = any(isinstance(n, ast.Attribute) and (self.sys.extent.match(n.attr) or self.seq_of_name(n.attr)) or
                         isinstance(n, ast.Name) and (self.sys.named.match(n.id) or self.seq_of_name(n.id)) for n in walk_own(f.node))
            if strong and len(vs) > 1:
                self.weak = self.sys.weak
        for p in ps:
            m = self.sys.param.match(p)
            if m.group(1) or p[-1] == '0' or len(dirs) > 1:
                self.param_axis[p] = m.group(1) or m.group(2)

    # definitions: name -> [(loop nodes enclosing, kind, expression, position)]
    def _collect(self, node, loops):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            here = loops
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    self._target(t, c.value, loops)
            elif isinstance(c, ast.AnnAssign) and c.value is not None:
                self._target(c.target, c.value, loops)
            elif isinstance(c, ast.AugAssign) and isinstance(c.target, ast.Name):
                if not isinstance(c.op, (ast.Add, ast.Sub)):
                    self.defs.setdefault(c.target.id, []).append(('unknown', None, None))
            elif isinstance(c, ast.NamedExpr):
                self._target(c.target, c.value, loops)
            elif isinstance(c, (ast.With,)):
                pass
            if isinstance(c, ast.For):
                self._bind(c.target, c.iter, c)
                here = loops + [c]
            elif isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in c.generators:
                    self._bind(g.target, g.iter, c)
                here = loops + [c]
            for x in ([c] if here is not loops else []):
                pass
            if here is not loops:
                for x in ast.walk(c):
                    self.loop.setdefault(x, []).append(c)
            self._collect(c, here)

    def _target(self, t, v, loops):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(('expr', v, None))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self._target(a, b, loops)
            else:
                for i, a in enumerate(t.elts):
                    if isinstance(a, ast.Name):
                        self.defs.setdefault(a.id, []).append(('item', v, i, len(t.elts)))
                    elif isinstance(a, ast.Starred) and isinstance(a.value, ast.Name):
                        self.defs.setdefault(a.value.id, []).append(('unknown', None, None))

    def _bind(self, t, it, node):
        d = self.defs.setdefault(('loop', id(node)), {})
        if isinstance(t, ast.Name):
            d[t.id] = ('each', it, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, a in enumerate(t.elts):
                if isinstance(a, ast.Name):
                    d[a.id] = ('eachitem', it, i, len(t.elts))
                elif isinstance(a, (ast.Tuple, ast.List)):
                    for j, b in enumerate(a.elts):
                        if isinstance(b, ast.Name):
                            d[b.id] = ('eachitem2', it, (i, j))

    # ---- scalars
    def axis(self, e):
        """'k', 'j' or 'i' if the expression is known to be an index or an extent in that direction."""
        if isinstance(e, ast.Name):
            return self.name_axis(e)
        if isinstance(e, ast.Attribute):
            m = self.sys.extent.match(e.attr)
            return m.group(1) if m else None
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Sub, ast.FloorDiv, ast.Mod, ast.Mult)):
                a, b = self.axis(e.left), self.axis(e.right)
                if isinstance(e.op, (ast.Mult, ast.FloorDiv, ast.Mod)):
                    if isinstance(e.right, ast.Constant):
                        return a
                    if isinstance(e.left, ast.Constant) and isinstance(e.op, ast.Mult):
                        return b
                    return None
                if a == b:
                    return a
                if a is None and self.neutral(e.left):
                    return b
                if b is None and self.neutral(e.right):
                    return a
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return self.axis(e.operand)
        if isinstance(e, ast.IfExp):
            a, b = self.axis(e.body), self.axis(e.orelse)
            return a if a == b or self.neutral(e.orelse) else b if self.neutral(e.body) else None
        if isinstance(e, ast.Subscript):
            s = self.seq(e.value)
            if s is not None:
                i = self.last_index(e.slice)
                if self.sys.boxes in ast.unparse(e.value):
                    i = self.last_index(e.slice) if isinstance(e.slice, ast.Tuple) else None
                if i is not None and -len(s) <= i < len(s):
                    return s[i]
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'min', 'max', 'round', 'range', 'float'):
            return self.common(e.args)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('arange', 'min', 'max', 'maximum', 'minimum', 'copy') and isinstance(e.func.value, ast.Name):
            if e.func.value.id in ('np', 'numpy'):
                return self.common([a for a in e.args]) if e.func.attr != 'copy' else None
        if isinstance(e, ast.Slice):
            return self.common([x for x in (e.lower, e.upper) if x is not None])
        return None

    def common(self, es):
        s = {self.axis(a) for a in es if not self.neutral(a)}
        return s.pop() if len(s) == 1 else None

    def neutral(self, e):
        if isinstance(e, ast.UnaryOp):
            return self.neutral(e.operand)
        if isinstance(e, ast.BinOp):
            return self.neutral(e.left) and self.neutral(e.right)
        return isinstance(e, ast.Constant)

    @staticmethod
    def last_index(s):
        if isinstance(s, ast.Tuple):
            if len(s.elts) < 2 or not all(isinstance(x, (ast.Slice, ast.Name, ast.Constant)) for x in s.elts[:-1]):
                return None
            s = s.elts[-1]
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
            return -s.operand.value if isinstance(s.operand.value, int) else None
        return s.value if isinstance(s, ast.Constant) and isinstance(s.value, int) and not isinstance(s.value, bool) else None

    def name_axis(self, e):
        n = e.id
        for lp in reversed(self.loop.get(e, [])):
            d = self.defs.get(('loop', id(lp)), {}).get(n)
            if d is not None:
                # a loop may not be entered twice to find its own variable
                if (id(lp), n) in self.busy:
                    return None
                self.busy.add((id(lp), n))
                r = self.bound(d)
                self.busy.discard((id(lp), n))
                if r is None and self.weak is not None:
                    m = self.weak.match(n)
                    r = m.group(1) or m.group(2) if m else None
                return r
        if n in self.busy:
            return None
        if n in self.memo:
            return self.memo[n]
        ds = self.defs.get(n, [])
        out = set()
        self.busy.add(n)
        for d in ds:
            if d[0] == 'expr' and (self.neutral(d[1]) or n in {x.id for x in ast.walk(d[1]) if isinstance(x, ast.Name)} and isinstance(d[1], (ast.BinOp, ast.Call))):
                continue
            out.add(self.bound(d))
        # a loop variable used after its loop
        if not ds:
            for k, d in self.defs.items():
                if isinstance(k, tuple) and n in d:
                    out.add(self.bound(d[n]))
        self.busy.discard(n)
        if n in self.param_axis:
            out.add(self.param_axis[n])
        elif out <= {None} and n not in self.f.params:
            m = self.sys.named.match(n)
            if not m and self.weak is not None:
                m = self.weak.match(n)
            if m:
                out = {m.group(1) or m.group(2)}
        r = out.pop() if len(out) == 1 else None
        if not self.busy:
            self.memo[n] = r
        return r

    def bound(self, d):
        kind, v, i = d[:3]
        n = d[3] if len(d) > 3 else None
        if kind == 'expr':
            return self.axis(v)
        if kind == 'item':
            s = self.seq(v)
            return s[i] if s is not None and n == len(s) else None
        if kind == 'each':
            return self.axis(v) if isinstance(v, ast.Call) else None
        if kind in ('eachitem', 'eachitem2') and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'ndindex' and kind == 'eachitem':
            s = self.seq(v.args[0]) if len(v.args) == 1 else tuple(self.axis(a) for a in v.args)
            return s[i] if s is not None and i < len(s) else None
        if kind == 'eachitem':
            s = self.seq(v)
            return s[i] if s is not None and n == len(s) and isinstance(v, (ast.Name, ast.Attribute)) else None
        return None

    def seq_of_name(self, name):
        """axes of the elements of a sequence with this name."""
        parts = re.sub(r'\d', '', name.lower()).strip('_').split('_')
        for p in parts:
            p = p[:-1] if p.endswith('s') and p != 's' else p
            if p in self.sys.sequences:
                return tuple(p.lstrip('d'))
        return None

    # ---- sequences, and arrays with such sequences along their last dimension
    def seq(self, e):
        if isinstance(e, ast.Name):
            s = self.seq_of_name(e.id)
            if s is not None:
                return s
            if e.id in self.busy or e.id in self.axes.none:
                return None
            ds = self.defs.get(e.id, [])
            if len(ds) == 1 and ds[0][0] == 'expr':
                self.busy.add(e.id)
                s = self.seq(ds[0][1])
                self.busy.discard(e.id)
                return s
            return None
        if isinstance(e, ast.Attribute):
            return self.seq_of_name(e.attr)
        if isinstance(e, (ast.Tuple, ast.List)):
            s = tuple(self.axis(x) for x in e.elts)
            return s if sum(x is not None for x in s) > 1 else None
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            if nm in ('array', 'tuple', 'list', 'asarray') and e.args:
                return self.seq(e.args[0])
            if nm == 'copy' and isinstance(e.func, ast.Attribute):
                return self.seq(e.func.value)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.seq(e.left), self.seq(e.right)
            if a is not None and (self.neutral(e.right) or a == b):
                return a
            if isinstance(e.op, ast.Add) and isinstance(e.left, ast.Tuple) and isinstance(e.right, (ast.Tuple, ast.Name, ast.Attribute, ast.Subscript)) and a is not None and b is not None:
                return a + b
            return None
        if isinstance(e, ast.Subscript):
            s = self.seq(e.value)
            if s is None:
                return None
            if isinstance(e.slice, ast.Slice) and isinstance(e.value, (ast.Name, ast.Attribute)):
                lo, hi = e.slice.lower, e.slice.upper
                if e.slice.step is None and 'extent' in ast.unparse(e.value) and all(x is None or isinstance(x, ast.Constant) and isinstance(x.value, int) for x in (lo, hi)):
                    return s[lo.value if lo is not None else None:hi.value if hi is not None else None]
                return None
            i = e.slice
            if isinstance(i, (ast.Name, ast.Tuple)) and not (isinstance(i, ast.Tuple) and self.last_index(i) is not None):
                return s if isinstance(i, ast.Name) and len(s) == 3 and 'extent' not in ast.unparse(e.value) and self.many(e.value) else None
            return None
        return None

    def many(self, e):
        """whether the name says there are several such sequences."""
        n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ''
        return any(re.sub(r'\d', '', p) in ('kjis', 'jis') for p in n.lower().split('_')) or re.search(r'(list|pair|pairs|array)', n) is not None

    # ---- dimensions of arrays created in the function
    def dims(self, e):
        if isinstance(e, ast.Name):
            ds = self.defs.get(e.id, [])
            if e.id in self.busy or len(ds) != 1 or ds[0][0] != 'expr' or e.id in self.f.params:
                return None
            self.busy.add(e.id)
            r = self.dims(ds[0][1])
            self.busy.discard(e.id)
            return r
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if e.func.attr in CREATORS and e.args and isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy'):
                return self.shape(e.args[0])
            if e.func.attr == 'reshape' and len(e.args) == 1:
                return self.shape(e.args[0])
            if e.func.attr == 'copy' and not e.args:
                return self.dims(e.func.value)
        return None

    def shape(self, e):
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.axis(x) for x in e.elts)
        s = self.seq(e)
        if s is not None and 'extent' in ast.unparse(e):
            return s
        return None


def factors(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for x in (e.left, e.right):
            x._up = ast.Mult() if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) else None
        return factors(e.left) + factors(e.right)
    return [e]


class Axes:

    def __init__(self, repo, system = Cells):
        self.repo = repo
        self.system = system
        self.none = set()
        self.samples = []
        self.count = {}
        self.found = []          # (function, node, rule, axes, text)

    def _n(self, rule, f, n):
        self.count[rule] = self.count.get(rule, 0) + 1
        if self.count[rule] <= 2:
            self.samples.append({'rule': rule, 'place': f'{f.path}:{n.lineno}', 'expression': ast.unparse(n)[:100]})

    def hit(self, f, n, rule, axes, text):
        self.found.append((f, n, rule, axes, text))

    def run(self):
        for f in self.repo.all_fns():
            s = Scope(self, f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and f.name.startswith('_'):
                    n.value._sub = True          # several results, not a sequence
                elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple) and any(isinstance(t, ast.Tuple) for t in n.targets):
                    n.value._sub = True
                elif isinstance(n, ast.Subscript):
                    n.slice._sub = True
            for n in walk_own(f.node):
                self.look(f, s, n)
        return self.found

    def look(self, f, s, n):
        if isinstance(n, ast.Subscript):
            els = n.slice.elts if isinstance(n.slice, ast.Tuple) else None
            d = s.dims(n.value)
            if els is not None:
                ax = [s.axis(x) for x in els]
                if d is not None and not any(isinstance(x, ast.Constant) and x.value in (Ellipsis, None) for x in els) and not any(isinstance(x, ast.Starred) for x in els):
                    for i, (x, y) in enumerate(zip(ax, d)):
                        if x and y:
                            self._n('dimension', f, n)
                            if x != y:
                                self.hit(f, n, 'dimension', x + y, f'dimension {i} of {ast.unparse(n.value)}, created to extend in {y.upper()}, is indexed by {ast.unparse(els[i])}, in {x.upper()}')
                t = [x for x in ax if x]
                if len(t) > 1:
                    self._n('order', f, n)
                    if d is None and any(self.system.order[a] >= self.system.order[b] for a, b in zip(t, t[1:])):
                        self.hit(f, n, 'order', ''.join(t), f'{ast.unparse(n)[:80]} is indexed in the order {", ".join(t).upper()}')
            elif d is not None and d and d[0]:
                x = s.axis(n.slice)
                if x:
                    self._n('dimension', f, n)
                    if x != d[0]:
                        self.hit(f, n, 'dimension', x + d[0], f'{ast.unparse(n)[:80]} is indexed in {x.upper()} where it extends in {d[0].upper()}')
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(getattr(n, 'ctx', None), ast.Load) and not getattr(n, '_sub', False):
            t = [x for x in (s.axis(x) for x in n.elts) if x]
            if len(t) > 1 and len(set(t)) == 1 and all(self.extent(x) for x in n.elts if s.axis(x)):
                self._n('order', f, n)
                self.hit(f, n, 'order', ''.join(t), f'{ast.unparse(n)[:80]} has extents in {", ".join(t).upper()}')
            elif len(set(t)) > 1:
                self._n('order', f, n)
                if any(self.system.order[a] > self.system.order[b] for a, b in zip(t, t[1:])):
                    self.hit(f, n, 'order', ''.join(t), f'{ast.unparse(n)[:80]} is in the order {", ".join(t).upper()}')
                elif any(self.system.order[a] == self.system.order[b] for a, b in zip(t, t[1:])):
                    self.hit(f, n, 'order', ''.join(t), f'{ast.unparse(n)[:80]} has items for {", ".join(t).upper()}')
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                x, y = s.axis(n.lower), s.axis(n.upper)
                if x and y:
                    self._n('comparison', f, n)
                    if x != y:
                        self.hit(f, n.lower, 'comparison', x + y, f'the slice {ast.unparse(n)} is from {x.upper()} to {y.upper()}')
        elif isinstance(n, ast.Compare):
            es = [n.left] + n.comparators
            for a, b in zip(es, es[1:]):
                x, y = s.axis(a), s.axis(b)
                if x and y:
                    self._n('comparison', f, n)
                    if x != y:
                        self.hit(f, n, 'comparison', x + y, f'{ast.unparse(n)[:80]} compares {x.upper()} with {y.upper()}')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not isinstance(getattr(n, '_up', None), ast.Mult):
            fs = [(s.axis(x), x) for x in factors(n)]
            es = [a for a, x in fs if a and self.extent(x)]
            if len(es) > 1:
                self._n('product', f, n)
                if len(set(es)) < len(es):
                    self.hit(f, n, 'product', ''.join(es), f'{ast.unparse(n)[:80]} is a product of extents in {", ".join(es).upper()}')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            m, o = (n.left, n.right) if isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) else (n.right, n.left)
            if isinstance(m, ast.BinOp) and isinstance(m.op, ast.Mult):
                x = s.axis(o)
                fs = [(s.axis(m.left), m.left), (s.axis(m.right), m.right)]
                for (a, ea), (b, eb) in (fs, fs[::-1]):
                    if x and a and self.extent(ea) and not self.extent(o) and not s.neutral(eb):
                        self._n('flattening', f, n)
                        if x != a or b and not self.extent(eb) and self.system.order[b] >= self.system.order[a]:
                            self.hit(f, n, 'flattening', a + x, f'{ast.unparse(n)[:80]} steps by the extent in {a.upper()} and adds an index in {x.upper()}')
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                ps = list(zip(t.elts, n.value.elts)) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) else [(t, n.value)]
                if isinstance(t, ast.Tuple) and not isinstance(n.value, ast.Tuple):
                    q = s.seq(n.value)
                    ps = [(a, b) for a, b in zip(t.elts, q)] if q is not None and len(q) == len(t.elts) else []
                for a, b in ps:
                    nm = a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else None
                    m = nm and self.system.named.match(nm)
                    y = b if isinstance(b, str) or b is None else s.axis(b)
                    if m and y:
                        self._n('assignment', f, n)
                        if (m.group(1) or m.group(2)) != y:
                            self.hit(f, n, 'assignment', (m.group(1) or m.group(2)) + y, f'{ast.unparse(n)[:80]} sets {nm} to a value for {y.upper()}')
        elif isinstance(n, ast.Call):
            self.call(f, s, n)

    def extent(self, e):
        if isinstance(e, ast.BinOp):
            return self.extent(e.left) or self.extent(e.right)
        if isinstance(e, ast.Subscript):
            return 'extent' in ast.unparse(e.value)
        nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ''
        return self.system.extent.match(nm) is not None or re.match(r'^n[kji]', nm) is not None

    def call(self, f, s, n):
        if not isinstance(n.func, (ast.Name, ast.Attribute)):
            return
        r = self.repo.resolve_expr(f, n.func)
        g = r[1] if r is not None and r[0] == 'fn' else None
        if g is None:
            pairs = []
        else:
            pairs = list(zip(g.params, n.args))
        pairs += [(k.arg, k.value) for k in n.keywords if k.arg]
        for p, a in pairs:
            m = self.system.param.match(p)
            if m:
                x = s.axis(a)
                if x:
                    self._n('argument', f, n)
                    if x != (m.group(1) or m.group(2)):
                        self.hit(f, n, 'argument', (m.group(1) or m.group(2)) + x, f'argument {p} of {ast.unparse(n.func)} is given {ast.unparse(a)[:60]}, for {x.upper()}')
            q = s.seq_of_name(p)
            if q is not None:
                v = s.seq(a)
                if v is not None and len(v) == len(q):
                    self._n('argument', f, n)
                    if any(x and x != y for x, y in zip(v, q)):
                        self.hit(f, n, 'argument', ''.join(x or '-' for x in v), f'argument {p} of {ast.unparse(n.func)} is given {ast.unparse(a)[:60]}, for {", ".join(x or "-" for x in v).upper()}')
