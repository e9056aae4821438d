"""Path-sensitive effect summaries: which combinations of effects the normal (and exceptional) paths of a function have.

Package helpers are inlined, so it does not matter how the code is divided into functions.  Loops run zero or more times.  Tests on
parameters with known constant values are decided; a test that occurs again on the same unmodified values is decided consistently.
"""

import ast
import copy
import re

from .repo import Fn

CAP = 600
WORD = re.compile(r'[A-Za-z_]\w*')


class Unknown:
    pass


UNK = Unknown()


class Summary:
    __slots__ = ('normal', 'raised', 'truncated')

    def __init__(self, normal, raised, truncated=False):
        self.normal = normal        # set of frozenset(effects)
        self.raised = raised
        self.truncated = truncated


def assigned_names(fnode):
    out = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out[n.id] = out.get(n.id, 0) + 1
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out[n.target.id] = out.get(n.target.id, 0) + 1
    return out


class Paths:

    def __init__(self, repo, effects_of, inline, resolve, maxdepth=10, found=False):
        """found: assume that objects looked up exist, i.e. that a local name (not a parameter) is never None.
        effects_of(fn, node, aliases) -> iterable of effects of one call / statement node (not counting callees);
        inline(Fn) -> bool; resolve(fn, call) -> Fn or None."""
        self.repo = repo
        self.effects_of = effects_of
        self.inline = inline
        self.resolve = resolve
        self.memo = {}
        self._helpers = {}
        self._aliases = {}
        self._pcalls = getattr(repo, '_private_calls_memo', None)
        self.stack = []
        self.maxdepth = maxdepth
        self.found = found
        self.seen_fns = set()
        self.branch = None          # (fn, test) -> (effects if true, effects if false) or None

    def helper_args(self, fn, depth=0):
        """what the parameters of an internal helper with a single caller stand for, as expressions of the caller."""
        if not fn.name.startswith('_') or fn.name.startswith('__') or fn.parent is not None or depth > 3:
            return {}
        k = fn.qual
        if k not in self._helpers:
            self._helpers[k] = {}
            calls = self._private_calls().get(fn.name, [])
            if len(calls) == 1 and calls[0][0] is not fn and not any(isinstance(x, ast.Starred) for x in calls[0][1].args):
                caller, c = calls[0]
                al = dict(local_aliases(caller))
                for a, b in self.helper_args(caller, depth + 1).items():
                    al.setdefault(a, b)
                ps = fn.params[1:] if fn.cls is not None and fn.kind != 'static' else fn.params
                pairs = list(zip(ps, c.args)) + [(x.arg, x.value) for x in c.keywords if x.arg]
                asg = assigned_names(fn.node)
                out = {p: _Spelled(al).visit(copy.deepcopy(v)) for p, v in pairs if asg.get(p, 0) == 0 and not isinstance(v, ast.Constant)
                       and not (isinstance(v, ast.Name) and v.id not in al)}
                self._helpers[k] = {p: v for p, v in out.items() if sum(1 for _ in ast.walk(v)) < 60}
        return self._helpers[k]

    def aliases_of(self, fn, asg):
        if fn.qual not in self._aliases:
            al = self._aliases[fn.qual] = {k: v for k, v in local_aliases(fn).items()}
            for k, v in self.helper_args(fn).items():
                al.setdefault(k, v)
        return self._aliases[fn.qual]

    def _private_calls(self):
        if self._pcalls is None:
            self._pcalls = self.repo._private_calls_memo = {}
            for f in self.repo.all_fns():
                if f.parent is not None:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call):
                        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                        if nm.startswith('_') and not nm.startswith('__'):
                            self._pcalls.setdefault(nm, []).append((f, n))
        return self._pcalls

    # ---- constants -------------------------------------------------------------------------------------------------------

    def const(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        return UNK

    def test(self, e, env):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            v = env.get(e.id, UNK)
            return None if v is UNK else bool(v)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.test(e.operand, env)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.test(x, env) for x in e.values]
            if isinstance(e.op, ast.And):
                if any(v is False for v in vs):
                    return False
                return True if all(v is True for v in vs) else None
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.const(e.left, env), self.const(e.comparators[0], env)
            if a is UNK or b is UNK:
                return None
            op = e.ops[0]
            try:
                if isinstance(op, ast.Is):
                    return a is b
                if isinstance(op, ast.IsNot):
                    return a is not b
                if isinstance(op, ast.Eq):
                    return a == b
                if isinstance(op, ast.NotEq):
                    return a != b
            except Exception:
                return None
        return None

    # ---- function summary ------------------------------------------------------------------------------------------------

    def summary(self, fn, binding=None):
        binding = binding or {}
        key = (fn.qual, tuple(sorted((k, repr(v)) for k, v in binding.items())))
        if key in self.memo:
            return self.memo[key]
        if fn.qual in self.stack or len(self.stack) > self.maxdepth:
            return Summary({frozenset()}, set())
        self.stack.append(fn.qual)
        self.seen_fns.add(fn.qual)
        run = _Run(self, fn, binding)
        out = run.go()
        self.stack.pop()
        self.memo[key] = out
        return out


def local_aliases(fn):
    out = {}
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Name):
                    if isinstance(n.value, ast.Call) and ast.unparse(n.value.func).rsplit('.', 1)[-1] in ('SubElement', 'Element'):
                        out[x.id] = n.value     # (on some path) a newly made node
                    out.setdefault(x.id, n.value)
        elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            out.setdefault(n.target.id, n.iter)
    return out


class _Spelled(ast.NodeTransformer):
    """replaces local names by what they stand for."""

    def __init__(self, aliases, depth=0):
        self.aliases, self.depth = aliases, depth

    def visit_Name(self, n):
        a = self.aliases.get(n.id)
        if a is None or self.depth > 3:
            return n
        return _Spelled({k: v for k, v in self.aliases.items() if k != n.id}, self.depth + 1).visit(copy.deepcopy(a))


class _Run:

    def __init__(self, eng, fn, binding):
        self.e = eng
        self.fn = fn
        self.asg = assigned_names(fn.node)
        self.env = {k: v for k, v in binding.items() if self.asg.get(k, 0) == 0}
        self.aliases = eng.aliases_of(fn, self.asg)
        self.trunc = False

    def stable(self, e):
        return not any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) for n in ast.walk(e))

    def forget(self, names, st):
        """drop what was assumed of names which are assigned."""
        if not names:
            return st
        out = set()
        for e, a in st:
            k = frozenset((t, p) for t, p in a if not (set(WORD.findall(t)) & names))
            out.add((e, k))
        return out

    def cap(self, s):
        if len(s) > CAP:
            self.trunc = True
            # forget assumptions first
            s = {(e, frozenset()) for e, _ in s}
        return s

    def go(self):
        st = {(frozenset(), frozenset())}
        r = self.block(self.fn.node.body, st)
        normal = {e for e, _ in r['fall'] | r['return']}
        raised = {e for e, _ in r['raise']}
        return Summary(normal, raised, self.trunc)

    def new(self):
        return {'fall': set(), 'return': set(), 'raise': set(), 'break': set(), 'continue': set()}

    def block(self, stmts, st):
        out = self.new()
        cur = st
        self.trace = getattr(self, 'trace', None)
        for s in stmts:
            if not cur:
                break
            if self.tracking and any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert)) for n in ast.walk(s)):
                self.tracking[-1].update(cur)
            r = self.stmt(s, cur)
            for k in ('return', 'raise', 'break', 'continue'):
                out[k] |= r[k]
            cur = self.cap(r['fall'])
        out['fall'] = cur
        return out

    tracking = ()

    # ---- expressions -------------------------------------------------------------------------------------------------------

    def expr(self, e, st, raises):
        """effects of evaluating e; returns states; exceptional states of inlined callees go to raises."""
        if e is None:
            return st
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return st
        if isinstance(e, ast.BoolOp):
            cur = st
            outs = set()
            for i, v in enumerate(e.values):
                cur = self.expr(v, cur, raises)
                outs |= cur if i < len(e.values) - 1 and not self.pure(e.values[i + 1]) else set()
            return outs | cur
        if isinstance(e, ast.IfExp):
            s0 = self.expr(e.test, st, raises)
            return self.expr(e.body, s0, raises) | self.expr(e.orelse, s0, raises)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = st
            for g in e.generators:
                cur = self.expr(g.iter, cur, raises)
            body = cur
            for x in ([e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]):
                body = self.expr(x, body, raises)
            return cur | body
        cur = st
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword)):
                cur = self.expr(c.value if isinstance(c, ast.keyword) else c, cur, raises)
        if isinstance(e, ast.Attribute):
            eff = frozenset(self.e.effects_of(self.fn, e, self.aliases))
            if eff:
                cur = {(a | eff, b) for a, b in cur}
        if isinstance(e, ast.Call):
            eff = frozenset(self.e.effects_of(self.fn, e, self.aliases))
            if eff:
                cur = {(a | eff, b) for a, b in cur}
            tgt = self.e.resolve(self.fn, e)
            if tgt is not None and self.e.inline(tgt):
                b = self.bind(tgt, e)
                argn = self.arg_names(tgt, e)
                groups = {}
                for st1 in cur:
                    groups.setdefault(self.assumed(argn, b, st1[1]), set()).add(st1)
                nxt = set()
                for extra, sts in groups.items():
                    s = self.e.summary(tgt, {**b, **dict(extra)})
                    if s.truncated:
                        self.trunc = True
                    for x in s.raised:
                        raises |= {(a | x, c) for a, c in sts}
                    nxt |= {(a | x, c) for a, c in sts for x in s.normal}
                cur = self.cap(nxt)
        elif isinstance(e, ast.NamedExpr):
            pass
        return cur

    def pure(self, e):
        return not any(isinstance(n, ast.Call) for n in ast.walk(e))

    def arg_names(self, tgt, call):
        """callee parameter -> caller name, for arguments which are plain names."""
        a = tgt.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        off = 1 if tgt.kind in ('method', 'class') and isinstance(call.func, ast.Attribute) and pos[:1] and pos[0] in ('self', 'cls') else 0
        out = {}
        for i, x in enumerate(call.args):
            if isinstance(x, ast.Starred):
                break
            if i + off < len(pos) and isinstance(x, ast.Name):
                out[pos[i + off]] = x.id
        for k in call.keywords:
            if k.arg is not None and isinstance(k.value, ast.Name):
                out[k.arg] = k.value.id
        return out

    def assumed(self, argn, bound, assumptions):
        """what the assumptions of a state say about the arguments of a call."""
        d = dict(assumptions)
        out = []
        for p, n in sorted(argn.items()):
            if p in bound:
                continue
            if d.get(n + ' is None') is True:
                out.append((p, None))
            elif n in d:
                out.append((p, bool(d[n])))
        return tuple(out)

    def bind(self, tgt, call):
        b = {}
        a = tgt.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        off = 1 if tgt.kind in ('method', 'class') and isinstance(call.func, ast.Attribute) and pos[:1] and pos[0] in ('self', 'cls') else 0
        given = set(pos[:off])
        star = False
        for i, x in enumerate(call.args):
            if isinstance(x, ast.Starred):
                star = True
                break
            if i + off < len(pos):
                given.add(pos[i + off])
                v = self.e.const(x, self.env)
                if v is not UNK:
                    b[pos[i + off]] = v
        for k in call.keywords:
            if k.arg is None:
                star = True
            else:
                given.add(k.arg)
                v = self.e.const(k.value, self.env)
                if v is not UNK:
                    b[k.arg] = v
        if not star:
            defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
            defs.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for p, d in defs.items():
                if p not in given and isinstance(d, ast.Constant):
                    b[p] = d.value
        return b

    # ---- conditions --------------------------------------------------------------------------------------------------------

    def split(self, test, st):
        """states in which the test is true / false."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.split(test.operand, st)
            return f, t
        v = self.e.test(test, self.env)
        if v is True:
            return st, set()
        if v is False:
            return set(), st
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, false = st, set()
                for x in test.values:
                    t, f = self.split(x, cur)
                    false |= f
                    cur = t
                return cur, false
            cur, true = st, set()
            for x in test.values:
                t, f = self.split(x, cur)
                true |= t
                cur = f
            return true, cur
        if self.e.found and isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                test.left.id not in self.fn.params and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                return set(), st
            return st, set()
        if self.e.branch is not None:
            be = self.e.branch(self.fn, test)
            if be is not None:
                return {(e | frozenset(be[0]), a) for e, a in st}, {(e | frozenset(be[1]), a) for e, a in st}
        key, pol = self.key(test)
        if key is None:
            return set(st), set(st)
        t, f = set(), set()
        for e, a in st:
            d = dict(a)
            if key in d:
                (t if d[key] == pol else f).add((e, a))
            else:
                t.add((e, a | {(key, pol)}))
                f.add((e, a | {(key, not pol)}))
        return t, f

    def key(self, test):
        if not self.stable(test):
            return None, True
        pol = True
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
            if type(op) in flip:
                test = ast.Compare(test.left, [flip[type(op)]()], test.comparators)
                pol = False
        return ast.unparse(test), pol

    # ---- statements --------------------------------------------------------------------------------------------------------

    def stmt(self, s, st):
        out = self.new()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            out['fall'] = st
            return out
        eff = frozenset(self.e.effects_of(self.fn, s, self.aliases))
        if isinstance(s, ast.If):
            cur = self.expr(s.test, st, out['raise'])
            t, f = self.split(s.test, cur)
            for states, body in ((t, s.body), (f, s.orelse)):
                if states:
                    r = self.block(body, states)
                    for k in out:
                        out[k] |= r[k]
            return out
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            it = s.iter if not isinstance(s, ast.While) else s.test
            cur = self.expr(it, st, out['raise'])
            forever = isinstance(s, ast.While) and self.e.test(s.test, self.env) is True
            if not isinstance(s, ast.While):
                cur = self.forget({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}, cur)
            entry = set(cur)
            seen = set(entry)
            frontier = entry
            exits = set()
            for _ in range(12):
                r = self.block(s.body, frontier)
                out['return'] |= r['return']
                out['raise'] |= r['raise']
                exits |= r['break']
                nxt = (r['fall'] | r['continue']) - seen
                seen |= nxt
                if not nxt:
                    break
                frontier = self.cap(nxt)
                if not isinstance(s, ast.While):
                    frontier = self.forget({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}, frontier)
            norm = set() if forever else seen
            if s.orelse:
                r = self.block(s.orelse, norm)
                for k in ('return', 'raise', 'break', 'continue'):
                    out[k] |= r[k]
                norm = r['fall']
            out['fall'] = self.cap(norm | exits)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            cur = st
            for i in s.items:
                cur = self.expr(i.context_expr, cur, out['raise'])
            r = self.block(s.body, cur)
            for k in out:
                out[k] |= r[k]
            return out
        if isinstance(s, ast.Try):
            mid = set(st)
            self.tracking = list(self.tracking) + [mid]
            r = self.block(s.body, st)
            self.tracking = self.tracking[:-1]
            exc = mid | r['raise']
            cur = r['fall']
            base = frozenset().union(*[a for a, _ in st]) if st else frozenset()
            if cur and all(x.endswith('-') for a, _ in cur for x in a - base):
                exc = set(cur)      # a failed removal leaves the entry absent just as well
            if s.orelse and cur:
                r2 = self.block(s.orelse, cur)
                for k in ('return', 'raise', 'break', 'continue'):
                    r[k] |= r2[k]
                cur = r2['fall']
            handled = self.new()
            catch_all = False
            for h in s.handlers:
                if h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException'):
                    catch_all = True
                r3 = self.block(h.body, self.cap(exc))
                for k in handled:
                    handled[k] |= r3[k]
            if not s.handlers or not catch_all:
                handled['raise'] |= r['raise'] if s.handlers else exc if s.finalbody else r['raise']
            res = {k: (r[k] if k not in ('raise', 'fall') else set()) | handled[k] for k in out}
            res['fall'] |= cur
            if s.finalbody:
                fin = self.new()
                for k in res:
                    if res[k]:
                        r4 = self.block(s.finalbody, self.cap(res[k]))
                        fin[k] |= r4['fall']
                        for kk in ('return', 'raise', 'break', 'continue'):
                            fin[kk] |= r4[kk]
                res = fin
            return res
        if isinstance(s, ast.Return):
            cur = self.expr(s.value, st, out['raise'])
            out['return'] = {(a | eff, b) for a, b in cur}
            return out
        if isinstance(s, ast.Raise):
            cur = self.expr(s.exc, st, out['raise'])
            out['raise'] |= cur
            return out
        if isinstance(s, ast.Break):
            out['break'] = st
            return out
        if isinstance(s, ast.Continue):
            out['continue'] = st
            return out
        if isinstance(s, ast.Assert):
            cur = self.expr(s.test, st, out['raise'])
            t, f = self.split(s.test, cur)
            out['raise'] |= f
            out['fall'] = t
            return out
        cur = st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                cur = self.expr(c, cur, out['raise'])
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            names = {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            cur = self.forget(names, cur)
            if len(ts) == 1 and isinstance(ts[0], ast.Name) and isinstance(getattr(s, 'value', None), ast.Constant) and \
                    type(s.value.value) is int:
                # counters: known to be zero after being set to zero, positive after being increased
                x, pos = ts[0].id, None
                if isinstance(s, ast.Assign):
                    pos = s.value.value > 0
                elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and s.value.value > 0:
                    pos = True
                if pos is not None and s.value.value >= 0:
                    facts = {(x, pos), (f'{x} > 0', pos), (f'{x} == 0', not pos), (f'{x} >= 1', pos)}
                    cur = {(a, b | facts) for a, b in cur}
            if isinstance(s, ast.Assign) and len(ts) == 1 and isinstance(ts[0], ast.Name) and isinstance(s.value, ast.Constant) and \
                    isinstance(s.value.value, bool):
                cur = {(a, b | {(ts[0].id, s.value.value)}) for a, b in cur}
        out['fall'] = {(a | eff, b) for a, b in cur} if eff else cur
        return out
