"""Reaching definitions of the local names of a function (or module), on the syntax tree.

Reach(node).defs(name_node) -> frozenset of Def that may reach the use; a Def is one of
  kind 'param'   the value of a parameter
  kind 'assign'  value expression, with the path of indices for tuple targets
  kind 'for'     an element of the iterable `value` (path as above)
  kind 'aug'     value is the AugAssign statement; prev = definitions before it
  kind 'with'    value is the context expression
  kind 'other'   import, def, class, except, del, global...
  kind 'free'    not defined in this scope (closure, module name, builtin)
"""
import ast


class Def:
    __slots__ = ('kind', 'name', 'value', 'path', 'stmt', 'prev')

    def __init__(self, kind, name, value=None, path=(), stmt=None, prev=None):
        self.kind, self.name, self.value, self.path, self.stmt, self.prev = kind, name, value, path, stmt, prev

    def __repr__(self):
        return '<%s %s @%s>' % (self.kind, self.name, getattr(self.stmt, 'lineno', '?'))


class Reach:
    def __init__(self, node):
        self.node = node
        self.use = {}          # id(Name load) -> frozenset of Def
        self.muts = {}         # id(Name) -> kind, for x[..] = , x[..] += , x.append
        self.cache = {}
        st = {}
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                st[x.arg] = frozenset([Def('param', x.arg, x, (), node)])
        self.breaks, self.conts = [], []
        self.ret = []
        if isinstance(node, ast.Lambda):
            self.expr(node.body, st)
        else:
            self.block(node.body, st)

    def defs(self, n):
        return self.use.get(id(n), frozenset())

    def one(self, n):
        """the only definition that reaches the use, or None"""
        d = self.defs(n)
        return next(iter(d)) if len(d) == 1 else None

    # -- expressions ----------------------------------------------------
    def expr(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                d = st.get(e.id)
                if d is None:
                    d = self.free(e.id)
                self.use[id(e)] = self.use.get(id(e), frozenset()) | d
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s = dict(st)
            for g in e.generators:
                self.expr(g.iter, s)
                self.bind(g.target, 'for', g.iter, (), g, s)
                for c in g.ifs:
                    self.expr(c, s)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, s)
                self.expr(e.value, s)
            else:
                self.expr(e.elt, s)
            return
        if isinstance(e, ast.Lambda):
            s = dict(st)
            a = e.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                s[x.arg] = frozenset([self.mk('param', x.arg, x, (), e)])
            for d in a.defaults + [k for k in a.kw_defaults if k is not None]:
                self.expr(d, st)
            self.expr(e.body, s)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            self.bind(e.target, 'assign', e.value, (), e, st)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice, ast.comprehension)):
                self.expr(c, st)

    def free(self, name):
        k = ('free', name)
        if k not in self.cache:
            self.cache[k] = frozenset([Def('free', name)])
        return self.cache[k]

    def mk(self, kind, name, value, path, stmt, prev=None):
        k = (kind, name, id(value), path, id(stmt))
        if k not in self.cache:
            self.cache[k] = Def(kind, name, value, path, stmt, prev)
        d = self.cache[k]
        if prev is not None:
            d.prev = prev if d.prev is None else d.prev | prev
        return d

    def bind(self, t, kind, value, path, stmt, st):
        if isinstance(t, ast.Name):
            st[t.id] = frozenset([self.mk(kind, t.id, value, path, stmt)])
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, 'other', value, path + (i,), stmt, st)
                else:
                    self.bind(x, kind, value, path + (i,), stmt, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, 'other', value, path, stmt, st)
        else:
            self.expr_target(t, st)

    def expr_target(self, t, st):
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                self.expr(c, st)

    # -- statements -----------------------------------------------------
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        for k in a:
            if k not in b:
                out[k] = a[k]
        return out

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def loop(self, s, st, head):
        n = 0
        while True:
            self.breaks.append([])
            self.conts.append([])
            cur = dict(st)
            out0 = head(cur)
            end = self.block(s.body, dict(out0))
            for c in self.conts.pop():
                end = self.join(end, c)
            br = self.breaks.pop()
            new = self.join(st, end)
            n += 1
            if n > 6 or new == st:
                break
            st = new
        after = dict(st)
        if isinstance(s, ast.While):
            self.expr(s.test, after)
        after = self.block(s.orelse, after)
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
            after = None
        for b in br:
            after = self.join(after, b)
        return after

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            st = dict(st)
            for t in s.targets:
                self.bind(t, 'assign', s.value, (), s, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            st = dict(st)
            if s.value is not None:
                self.bind(s.target, 'assign', s.value, (), s, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            st = dict(st)
            if isinstance(s.target, ast.Name):
                prev = st.get(s.target.id) or self.free(s.target.id)
                st[s.target.id] = frozenset([self.mk('aug', s.target.id, s, (), s, prev)])
            else:
                self.expr_target(s.target, st)
            return st
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, st)
            st = dict(st)
            st[s.name] = frozenset([self.mk('other', s.name, s, (), s)])
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            st = dict(st)
            for a in s.names:
                n = (a.asname or a.name).split('.')[0]
                st[n] = frozenset([self.mk('other', n, s, (), s)])
            return st
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            a = self.block(s.body, dict(st)) if not (isinstance(s.test, ast.Constant) and not s.test.value) else None
            b = self.block(s.orelse, dict(st)) if not (isinstance(s.test, ast.Constant) and s.test.value) else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st)

            def head(cur):
                self.bind(s.target, 'for', s.iter, (), s, cur)
                return cur
            return self.loop(s, st, head)
        if isinstance(s, ast.While):
            def head(cur):
                self.expr(s.test, cur)
                return cur
            return self.loop(s, st, head)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            st = dict(st)
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, 'with', i.context_expr, (), s, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.Return,)):
            self.expr(s.value, st)
            self.ret.append(s)
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            return None
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1].append(st)
            return None
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            mid = dict(st)
            cur = dict(st)
            alive = True
            for x in s.body:
                nxt = self.stmt(x, cur)
                if nxt is None:
                    alive = False
                    break
                cur = nxt
                mid = self.join(mid, cur)
            out = self.block(s.orelse, dict(cur)) if alive else None
            for h in s.handlers:
                hs = dict(mid)
                self.expr(h.type, hs)
                if h.name:
                    hs[h.name] = frozenset([self.mk('other', h.name, h, (), h)])
                out = self.join(out, self.block(h.body, hs))
            if s.finalbody:
                f = self.block(s.finalbody, dict(out if out is not None else mid))
                return f if out is not None else None
            return out
        if isinstance(s, ast.Delete):
            st = dict(st)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st[t.id] = frozenset([self.mk('other', t.id, s, (), s)])
                else:
                    self.expr(t, st)
            return st
        if isinstance(s, ast.Global):
            return st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Name) and f.id in ('exit', 'quit') or isinstance(f, ast.Attribute) and f.attr in ('exit', '_exit') and \
                    isinstance(f.value, ast.Name) and f.value.id in ('sys', 'os'):
                return None
        return st
