"""A small flow-insensitive dataflow: which tagged sources an expression may depend on."""
import ast

from .names import dotted


class Tags:
    """seed(expr, scope) -> iterable of tags that the expression itself introduces (or None).
    follow(call) -> function node whose returned value the call gives (same module helpers), or None."""

    def __init__(self, root, seed, follow=None, params=None):
        self.root = root
        self.seed = seed
        self.follow = follow or (lambda c: None)
        self.env = {}
        self.params = params or {}
        for k, v in self.params.items():
            self.env[k] = set(v)
        self.changed = True
        n = 0
        while self.changed and n < 12:
            self.changed = False
            self.sweep()
            n += 1

    @staticmethod
    def scope(n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module, ast.Lambda)):
            n = getattr(n, '_parent', None)
        return n

    def owner(self, n, name):
        s = self.scope(n)
        while isinstance(s, (ast.FunctionDef, ast.Lambda)):
            a = s.args
            if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}:
                return s
            if isinstance(s, ast.FunctionDef) and any(
                    isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) and self.scope(x) is s for x in ast.walk(s)):
                return s
            s = self.scope(getattr(s, '_parent', None))
        return s

    def key(self, n, name):
        return (id(self.owner(n, name)), name)

    def of(self, e, depth=0):
        if e is None or depth > 40:
            return set()
        t = self.seed(e)
        if t is not None:
            return set(t)
        if isinstance(e, ast.Name):
            return set(self.env.get(self.key(e, e.id), ()))
        if isinstance(e, ast.Call):
            out = set()
            g = self.follow(e)
            if g is not None:
                for r in ast.walk(g):
                    if isinstance(r, ast.Return) and r.value is not None and self.scope(r) is g:
                        out |= self.of(r.value, depth + 1)
                return out
            if isinstance(e.func, ast.Attribute):
                out |= self.of(e.func.value, depth + 1)
            for a in e.args:
                out |= self.of(a.value if isinstance(a, ast.Starred) else a, depth + 1)
            for k in e.keywords:
                out |= self.of(k.value, depth + 1)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.of(e.elt, depth + 1)
        if isinstance(e, ast.DictComp):
            return self.of(e.key, depth + 1) | self.of(e.value, depth + 1)
        if isinstance(e, ast.Subscript):
            return self.of(e.value, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.of(e.body, depth + 1) | self.of(e.orelse, depth + 1)
        if isinstance(e, ast.Compare):
            return set()
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.of(c, depth + 1)
        return out

    def put(self, t, tags):
        if isinstance(t, ast.Name):
            k = self.key(t, t.id)
        else:
            return
        s = self.env.setdefault(k, set())
        if not tags <= s:
            s |= tags
            self.changed = True

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.put(t, self.of(v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.parts(v, len(t.elts))
            if vs is not None:
                for a, b in zip(t.elts, vs):
                    if isinstance(b, set):
                        self.put(a, b)
                    else:
                        self.assign(a, b)
            else:
                g = self.of(v)
                for a in t.elts:
                    for x in ast.walk(a):
                        if isinstance(x, ast.Name):
                            self.put(x, g)
        elif isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.put(b, self.of(v))

    def parts(self, v, n):
        """component expressions (or tag sets) of a tuple value"""
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == n:
            return list(v.elts)
        cut = None
        if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice):
            lo = v.slice.lower.value if isinstance(v.slice.lower, ast.Constant) else (0 if v.slice.lower is None else None)
            if lo is None:
                return None
            cut = (lo, lo + n)
            v = v.value
        if isinstance(v, ast.Call):
            g = self.follow(v)
            if g is None:
                return None
            outs = None
            for r in ast.walk(g):
                if isinstance(r, ast.Return) and self.scope(r) is g:
                    if not isinstance(r.value, ast.Tuple):
                        return None
                    el = [self.of(x) for x in r.value.elts]
                    if cut:
                        el = el[cut[0]:cut[1]]
                    if len(el) != n:
                        return None
                    outs = el if outs is None else [a | b for a, b in zip(outs, el)]
            return outs
        return None

    def sweep(self):
        for n in ast.walk(self.root):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.assign(t, n.value)
            elif isinstance(n, ast.AugAssign):
                self.assign(n.target, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self.put(n.target, self.of(n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                d = dotted(it.func) if isinstance(it, ast.Call) else None
                if d == 'enumerate' and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and it.args:
                    for x in ast.walk(n.target.elts[1]):
                        if isinstance(x, ast.Name):
                            self.put(x, self.of(it.args[0]))
                elif d == 'zip' and isinstance(n.target, ast.Tuple) and len(n.target.elts) == len(it.args):
                    for a, b in zip(n.target.elts, it.args):
                        for x in ast.walk(a):
                            if isinstance(x, ast.Name):
                                self.put(x, self.of(b))
                else:
                    g = self.of(it)
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            self.put(x, g)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self.assign(n.optional_vars, n.context_expr)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'add', 'update') and isinstance(n.func.value, ast.Name):
                    g = set()
                    for a in n.args:
                        g |= self.of(a)
                    self.put(n.func.value, g)
                g = self.follow(n)
                if g is not None:
                    ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                    for i, a in enumerate(n.args):
                        if i < len(ps) and not isinstance(a, ast.Starred):
                            self.bind(g, ps[i], self.of(a))
                    for k in n.keywords:
                        if k.arg in ps or k.arg in {a.arg for a in g.args.kwonlyargs}:
                            self.bind(g, k.arg, self.of(k.value))

    def bind(self, g, p, tags):
        s = self.env.setdefault((id(g), p), set())
        if not tags <= s:
            s |= tags
            self.changed = True
