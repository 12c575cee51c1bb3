"""Where the values of command-line options go: dataflow from argparse destinations through a script."""
import ast

from .names import dotted


class Option:
    def __init__(self, dest, call, flags, kw):
        self.dest = dest
        self.call = call
        self.flags = flags
        self.nargs = kw.get('nargs')
        self.action = kw.get('action')
        self.type = kw.get('type')
        self.default = kw.get('default')

    def const(self, e):
        return e.value if isinstance(e, ast.Constant) else None

    @property
    def listed(self):
        """True/False/None: is the value a list (known number of values)"""
        if self.nargs is None:
            return False
        v = self.const(self.nargs)
        if isinstance(v, int):
            return True
        if v in ('*', '+'):
            return True
        if v == '?':
            return False
        return None

    @property
    def count(self):
        v = self.const(self.nargs) if self.nargs is not None else None
        return v if isinstance(v, int) else None


def options(mod):
    """{dest: Option} of every add_argument in a module, and whether any could not be read"""
    out, unknown = {}, False
    for n in ast.walk(mod.tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument'):
            continue
        kw = {k.arg: k.value for k in n.keywords}
        flags = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
        if None in kw or len(flags) != len(n.args):
            unknown = True
            continue
        if 'dest' in kw:
            d = kw['dest'].value if isinstance(kw['dest'], ast.Constant) else None
        else:
            longs = [f for f in flags if f.startswith('--')]
            if not flags:
                d = None
            elif not flags[0].startswith('-'):
                d = flags[0]
            elif longs:
                d = longs[0][2:].replace('-', '_')
            else:
                d = flags[0].lstrip('-').replace('-', '_')
        act = kw.get('action')
        if d is None:
            unknown = True
            continue
        if isinstance(act, ast.Constant) and act.value in ('version', 'help'):
            continue
        out[d] = Option(d, n, flags, kw)
    return out, unknown


class Flow:
    """flow-insensitive origins of names; sinks reached by values and by control"""

    def __init__(self, mod, prog):
        self.mod = mod
        self.prog = prog
        self.opaque = False            # the namespace is used in a way that is not followed
        self.env = {}                  # (scope id, name) -> set of origins (dest, idx, polarity)
        self.alias = {}                # (scope id, name) -> bool: holds the namespace
        self.uses = {}                 # dest -> [nodes]
        self.calls = []                # (call node, module, scope)
        self.ctl = {}                  # scope id -> set of control origins (from the call sites)
        self.scopes = {}
        self.pending = [(mod, mod.tree)]
        self.done = set()
        self.funcs = {}
        for m in prog.all_modules():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    self.funcs.setdefault(n.name, []).append((n, m))
        self.find_namespace()
        for _ in range(8):
            before = self.size()
            self.sweep()
            if self.size() == before:
                break

    def size(self):
        return (sum(len(v) for v in self.env.values()), len(self.alias), len(self.scopes), sum(len(v) for v in self.ctl.values()))

    # scopes ---------------------------------------------------------
    @staticmethod
    def scope(n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module)):
            n = getattr(n, '_parent', None)
        return n

    def scope_of_name(self, n, name):
        s = self.scope(n)
        while isinstance(s, ast.FunctionDef):
            if name in {a.arg for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs} or \
                    any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) and self.scope(x) is s for x in ast.walk(s)):
                return s
            s = self.scope(s._parent)
        return s

    def find_namespace(self):
        self.has_parse = False
        for n in ast.walk(self.mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('parse_args', 'parse_known_args'):
                self.has_parse = True
                p = n._parent
                if isinstance(p, ast.Assign):
                    for t in p.targets:
                        if isinstance(t, ast.Name):
                            self.alias[(id(self.scope(n)), t.id)] = True
                            continue
                        if isinstance(t, ast.Tuple) and n.func.attr == 'parse_known_args' and isinstance(t.elts[0], ast.Name):
                            self.alias[(id(self.scope(n)), t.elts[0].id)] = True
                            continue
                        self.opaque = True
                elif isinstance(p, ast.Return):
                    fn = self.scope(n)
                    for c in ast.walk(self.mod.tree):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == fn.name:
                            q = c._parent
                            if isinstance(q, ast.Assign) and isinstance(q.targets[0], ast.Name):
                                self.alias[(id(self.scope(c)), q.targets[0].id)] = True
                            elif isinstance(q, ast.Call):
                                self.follow_ns(q, c)
                            else:
                                self.opaque = True
                elif isinstance(p, ast.Call):
                    self.follow_ns(p, n)
                else:
                    self.opaque = True

    def is_ns(self, n):
        return isinstance(n, ast.Name) and self.alias.get((id(self.scope_of_name(n, n.id)), n.id), False)

    def follow_ns(self, call, arg):
        """the namespace is passed to a function"""
        d = dotted(call.func) or ''
        if d in ('print', 'isinstance', 'id', 'type'):
            return
        if d == 'getattr' and len(call.args) > 1 and isinstance(call.args[1], ast.Constant):
            return
        g = self.target(call)
        if g is None:
            self.opaque = True
            return
        fn, m = g
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        for i, a in enumerate(call.args):
            if a is arg:
                if i < len(ps):
                    self.alias[(id(fn), ps[i])] = True
                    self.pending.append((m, fn))
                else:
                    self.opaque = True
        for k in call.keywords:
            if k.value is arg:
                if k.arg in ps:
                    self.alias[(id(fn), k.arg)] = True
                    self.pending.append((m, fn))
                else:
                    self.opaque = True

    def target(self, call):
        """(function node, module) called, when it is one of ours and unique"""
        f = call.func
        if isinstance(f, ast.Name):
            r = None
            for fn, m in self.funcs.get(f.id, []):
                if m is self.mod:
                    return (fn, m)
            r = self.mod.resolve(f.id)
            if r and r[0] == 'func':
                return (r[1].node, r[1].mod)
            return None
        if isinstance(f, ast.Attribute):
            c = self.funcs.get(f.attr, [])
            if len(c) == 1:
                return c[0]
        return None

    # origins --------------------------------------------------------
    def origins(self, e):
        if e is None:
            return frozenset()
        if isinstance(e, ast.Attribute) and self.is_ns(e.value):
            return frozenset([(e.attr, None, '+')])
        if isinstance(e, ast.Call) and dotted(e.func) == 'getattr' and len(e.args) > 1 and self.is_ns(e.args[0]) \
                and isinstance(e.args[1], ast.Constant):
            return frozenset([(e.args[1].value, None, '+')])
        if isinstance(e, ast.Name):
            s = self.scope_of_name(e, e.id)
            return frozenset(self.env.get((id(s), e.id), ())) | self.comp(e)
        if isinstance(e, ast.Subscript):
            base = self.origins(e.value)
            sl = e.slice
            idx = None
            if isinstance(sl, ast.Constant) and isinstance(sl.value, int):
                idx = sl.value
            elif isinstance(sl, ast.Slice):
                lo = sl.lower.value if isinstance(sl.lower, ast.Constant) else (0 if sl.lower is None else '?')
                up = sl.upper.value if isinstance(sl.upper, ast.Constant) else (None if sl.upper is None else '?')
                idx = '%s:%s' % (lo, up)
            else:
                idx = '?'
            return frozenset((d, idx if i is None else i, p) for d, i, p in base) | self.origins(sl if not isinstance(sl, (ast.Slice, ast.Constant)) else None)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return frozenset((d, i, {'+': '-', '-': '+'}.get(p, '?')) for d, i, p in self.origins(e.operand))
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (None, False) and \
                    isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                o = self.origins(e.left)
                if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                    return o
                return frozenset((d, i, {'+': '-', '-': '+'}.get(p, '?')) for d, i, p in o)
            out = set()
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    out |= {(d, i, '?') for d, i, p in self.origins(c)}
            return frozenset(out)
        if isinstance(e, ast.IfExp):
            out = set(self.origins(e.body)) | set(self.origins(e.orelse))
            t = self.origins(e.test)
            b, o = e.body, e.orelse
            if isinstance(b, ast.Constant) and isinstance(o, ast.Constant) and isinstance(b.value, bool) and isinstance(o.value, bool):
                if b.value and not o.value:
                    out |= t
                elif o.value and not b.value:
                    out |= {(d, i, {'+': '-', '-': '+'}.get(p, '?')) for d, i, p in t}
            else:
                out |= {(d, i, '?') for d, i, p in t}
            return frozenset(out)
        if isinstance(e, ast.Lambda):
            return self.origins(e.body)
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.origins(c)
            elif isinstance(c, ast.keyword):
                out |= self.origins(c.value)
            elif isinstance(c, ast.comprehension):
                out |= self.origins(c.iter)
        return frozenset(out)

    def comp(self, name):
        """origins of a comprehension or loop variable"""
        n = name
        out = set()
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module)):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if any(isinstance(t, ast.Name) and t.id == name.id for t in ast.walk(g.target)):
                        out |= self.origins(g.iter)
            n = getattr(n, '_parent', None)
        return frozenset(out)

    def put(self, scope, name, o):
        s = self.env.setdefault((id(scope), name), set())
        s |= set(o)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if self.is_ns(v):
                self.alias[(id(self.scope_of_name(t, t.id)), t.id)] = True
                return
            self.put(self.scope_of_name(t, t.id), t.id, self.origins(v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.assign(a, b)
            else:
                o = self.origins(v)
                for i, a in enumerate(t.elts):
                    if isinstance(a, ast.Name):
                        self.put(self.scope_of_name(a, a.id), a.id, {(d, i if j is None else j, p) for d, j, p in o})

    def sweep(self):
        todo = list(self.pending)
        for m, s in todo:
            self.scopes[id(s)] = (m, s)
        self.uses = {}
        self.calls = []
        for m, s in list(self.scopes.values()):
            for n in ast.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.assign(t, n.value)
                elif isinstance(n, ast.AugAssign):
                    self.assign(n.target, n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.assign(n.target, n.value)
                elif isinstance(n, ast.NamedExpr):
                    self.assign(n.target, n.value)
                elif isinstance(n, (ast.For,)):
                    o = self.origins(n.iter)
                    for t in ast.walk(n.target):
                        if isinstance(t, ast.Name):
                            self.put(self.scope_of_name(t, t.id), t.id, o)
                elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                    self.assign(n.optional_vars, n.context_expr)
                elif isinstance(n, ast.Call):
                    self.call(n, m)
                elif isinstance(n, ast.Attribute) and self.is_ns(n.value):
                    if isinstance(n.ctx, ast.Load):
                        self.uses.setdefault(n.attr, []).append(n)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and self.is_ns(n):
                    p = n._parent
                    if isinstance(p, ast.Attribute):
                        continue
                    if isinstance(p, (ast.Call, ast.keyword)):
                        c = p if isinstance(p, ast.Call) else p._parent
                        if isinstance(c, ast.Call):
                            if dotted(c.func) == 'getattr' and len(c.args) > 1 and isinstance(c.args[1], ast.Constant):
                                self.uses.setdefault(c.args[1].value, []).append(c)
                            else:
                                self.follow_ns(c, n)
                            continue
                    if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets):
                        continue
                    if isinstance(p, (ast.Expr, ast.Compare, ast.Return)):
                        if isinstance(p, ast.Return):
                            self.opaque = True
                        continue
                    self.opaque = True

    def call(self, n, m):
        self.calls.append((n, m))
        g = self.target(n)
        if g is None or g[1] is not self.mod:
            return
        # a helper of the script: its parameters take the origins of the arguments
        fn = g[0]
        for p, v in self.bind(n, fn, 0):
            if self.is_ns(v):
                self.alias[(id(fn), p)] = True
            else:
                self.put(fn, p, self.origins(v))
        self.ctl.setdefault(id(fn), set()).update(self.control(n))

    @staticmethod
    def bind(call, fn, skip):
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args][skip:]
        out = []
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(ps):
                out.append((ps[i], a))
        for k in call.keywords:
            if k.arg:
                out.append((k.arg, k.value))
        return out

    # control --------------------------------------------------------
    def control(self, n):
        """origins that decide whether node n is executed, with polarity"""
        out = set()
        c = n
        p = getattr(n, '_parent', None)
        while p is not None:
            if isinstance(p, ast.If) or isinstance(p, ast.While):
                if c in p.body:
                    out |= self.test(p.test, True)
                elif c in p.orelse:
                    out |= self.test(p.test, False)
            elif isinstance(p, ast.IfExp):
                if c is p.body:
                    out |= self.test(p.test, True)
                elif c is p.orelse:
                    out |= self.test(p.test, False)
            elif isinstance(p, ast.BoolOp):
                for v in p.values[:p.values.index(c)] if c in p.values else []:
                    out |= self.test(v, isinstance(p.op, ast.And))
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(p, fld, None)
                if isinstance(b, list) and c in b:
                    for s in b[:b.index(c)]:
                        if isinstance(s, ast.If):
                            if s.body and self.leaves(s.body[-1]):
                                out |= self.test(s.test, False)
                            elif s.orelse and self.leaves(s.orelse[-1]):
                                out |= self.test(s.test, True)
            if isinstance(p, ast.FunctionDef):
                out |= self.ctl.get(id(p), set())
            c, p = p, getattr(p, '_parent', None)
        return out

    @staticmethod
    def leaves(s):
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            return (dotted(s.value.func) or '').split('.')[-1] in ('exit', '_exit', 'error', 'quit')
        return False

    def test(self, t, pol):
        flip = {'+': '-', '-': '+'}
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.test(t.operand, not pol)
        if isinstance(t, ast.BoolOp):
            out = set()
            strong = isinstance(t.op, ast.And) == pol
            for v in t.values:
                for d, i, p in self.test(v, pol):
                    out.add((d, i, p if strong else ('*' if p != '?' else '?')))
            return out
        return {(d, i, p if pol else flip.get(p, '?')) for d, i, p in self.origins(t)}
