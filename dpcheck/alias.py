"""In-place changes of data that belongs to somebody else: an interprocedural alias and effect analysis.

A root is what an array or container is reached from: ('P', i) parameter i, ('A', i, attr) an attribute of parameter i.
Only operations that certainly share storage (assignment, views, attributes, getters that hand out what is stored) carry
roots on; everything else is fresh, so an effect that is reported really can reach the caller's data."""
import ast

from .names import Names, dotted

MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'sort', 'reverse', 'fill', 'setdefault', 'resize',
       'put', 'itemset', 'add', 'discard', 'popitem', 'partition', 'byteswap'}
WEAK = {'clear', 'update', 'add', 'remove', 'discard', 'insert', 'fill', 'put', 'resize', 'pop'}
SURE = {'update': 1, 'insert': 2, 'fill': 1, 'put': 2, 'resize': 1, 'pop': 1}   # with that many arguments it is the container method
VIEW_ATTR = {'T', 'real', 'imag', 'flat'}
VIEW_METH = {'transpose', 'swapaxes', 'view', 'squeeze', 'reshape', 'ravel', 'diagonal'}
VIEW_FUNC = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'ascontiguousarray', 'transpose', 'swapaxes', 'squeeze',
             'reshape', 'ravel', 'rollaxis', 'moveaxis', 'real', 'imag', 'asfarray', 'broadcast_to'}
ARRAY_ATTR = {'shape', 'T', 'dot', 'real', 'imag', 'size', 'ndim', 'conj', 'conjugate', 'dtype', 'transpose', 'astype', 'copy',
              'flatten', 'reshape', 'sum', 'mean', 'min', 'max'}
OUT_FUNC_FIRST = {'put', 'place', 'copyto', 'fill_diagonal', 'putmask', 'shuffle'}


class Effects:
    def __init__(self, prog, nm=None):
        self.prog = prog
        self.nm = nm or Names(prog)
        self.funcs = [f for f in self.nm.funcs if isinstance(f.node, ast.FunctionDef)]
        self.by = {id(f.node): f for f in self.funcs}
        self.ret = {id(f.node): frozenset() for f in self.funcs}
        self.eff = {id(f.node): {} for f in self.funcs}     # root -> (node, text)
        self.resolved = {}
        self.exposed = set()
        self.called = set()
        self.solve()
        for m in prog.all_modules():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    self.callees(n, m)

    # ------------------------------------------------------------------ resolution
    def callees(self, call, mod):
        k = id(call)
        if k in self.resolved:
            return self.resolved[k]
        out = []
        t = self.nm.typeof(call.func, mod)
        if t:
            for x in t:
                if x[0] == 'func' and isinstance(x[1].node, ast.FunctionDef):
                    out.append((x[1], bool(x[2])))
                elif x[0] == 'cls':
                    i = x[1].lookup(self.prog, 'methods', '__init__')
                    if i is not None:
                        out.append((i, 'new'))
        self.resolved[k] = out
        for g, _ in out:
            self.called.add(id(g.node))
        return out

    def getter(self, node, mod):
        """property getters behind an attribute"""
        t = self.nm.typeof(node.value, mod)
        out = []
        for x in t or ():
            if x[0] == 'inst':
                g = x[1].lookup(self.prog, 'getters', node.attr)
                if g is not None:
                    out.append(g)
        return out

    # ------------------------------------------------------------------ one function
    def solve(self):
        for _ in range(12):
            changed = False
            for f in self.funcs:
                r, e = self.analyse(f)
                k = id(f.node)
                if r != self.ret[k] or set(e) != set(self.eff[k]):
                    self.ret[k] = r
                    self.eff[k] = e
                    changed = True
            if not changed:
                break

    def analyse(self, f):
        params = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        env = {}
        eff = {}
        rets = set()
        stored = {x.id for x in own(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        arrayish = self.array_names(f)
        # flow-sensitive in straight-line order, joined over branches; loops twice
        state = {p: frozenset({('P', p)}) for p in params}

        def val(e, st):
            if isinstance(e, ast.Name):
                return st.get(e.id, frozenset())
            if isinstance(e, ast.Attribute):
                out = set()
                if e.attr in VIEW_ATTR:
                    out |= val(e.value, st)
                gs = self.getter(e, f.mod)
                for g in gs:
                    out |= self.apply(g, True, e.value, [], [], st, val)
                if not gs and e.attr not in VIEW_ATTR:
                    for r in val(e.value, st):
                        if r[0] == 'P':
                            out.add(('A', r[1], e.attr))
                        else:
                            out.add(r[:3])
                return frozenset(out)
            if isinstance(e, ast.Subscript):
                base = val(e.value, st)
                if not base:
                    return base
                if view_index(e.slice, f.node):
                    return base
                return frozenset()
            if isinstance(e, ast.IfExp):
                return val(e.body, st) | val(e.orelse, st)
            if isinstance(e, ast.BoolOp):
                return frozenset().union(*[val(v, st) for v in e.values])
            if isinstance(e, ast.NamedExpr):
                return val(e.value, st)
            if isinstance(e, ast.Call):
                d = dotted(e.func) or ''
                head, _, last = d.rpartition('.')
                if last in VIEW_FUNC and head in ('np', 'numpy') and e.args:
                    return val(e.args[0], st)
                if last == 'array' and head in ('np', 'numpy') and e.args and any(
                        k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                    return val(e.args[0], st)
                cs = self.callees(e, f.mod)
                if cs:
                    out = set()
                    for g, bound in cs:
                        if bound == 'new':
                            continue
                        recv = e.func.value if isinstance(e.func, ast.Attribute) and bound else None
                        out |= self.apply(g, recv is not None, recv, e.args, e.keywords, st, val)
                    return frozenset(out)
                if isinstance(e.func, ast.Attribute) and e.func.attr in VIEW_METH:
                    return val(e.func.value, st)
                if isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'values', 'items'):
                    return val(e.func.value, st)
            return frozenset()

        assigned = {t.attr for n in own(f.node) if isinstance(n, ast.Assign) for t in n.targets
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'}

        def hit(roots, node, text, callee=None):
            for r in roots:
                if r[0] == 'A' and r[1] == 'self' and r[2] in assigned:
                    continue        # the method that creates the attribute fills it
                if callee is not None:
                    self.exposed.add(id(callee.node))
                if r not in eff:
                    eff[r] = (node, text)

        def effects_in(e, st):
            for c in walk_own(e):
                if not isinstance(c, ast.Call):
                    continue
                if isinstance(c.func, ast.Attribute) and c.func.attr in MUT and not self.callees(c, f.mod) and \
                        (c.func.attr not in WEAK or not isinstance(c.func.value, ast.Name) or c.func.value.id in arrayish or
                         len(c.args) == SURE.get(c.func.attr)):
                    t = self.nm.typeof(c.func.value, f.mod)
                    if not (t and any(x[0] in ('inst', 'extinst', 'mod', 'ext', 'cls') for x in t)):
                        hit(direct(c.func.value, val(c.func.value, st)), c, '%s()' % c.func.attr)
                for k in c.keywords:
                    if k.arg == 'out':
                        for o in (k.value.elts if isinstance(k.value, ast.Tuple) else [k.value]):
                            hit(val(o, st), c, 'out=')
                    if k.arg in ('overwrite_input', 'overwrite_a', 'overwrite_x', 'overwrite_b', 'overwrite_data') and c.args \
                            and isinstance(k.value, ast.Constant) and k.value.value:
                        hit(val(c.args[0], st), c, k.arg)
                d = dotted(c.func) or ''
                if d.rpartition('.')[2] in OUT_FUNC_FIRST and d.split('.')[0] in ('np', 'numpy') and c.args:
                    hit(val(c.args[0], st), c, d)
                if d in ('np.nan_to_num', 'numpy.nan_to_num') and any(
                        k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in c.keywords):
                    hit(val(c.args[0], st), c, d)
                for g, bound in self.callees(c, f.mod):
                    ps = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                    recv = c.func.value if isinstance(c.func, ast.Attribute) and bound is True else None
                    for r, (n2, txt) in self.eff[id(g.node)].items():
                        arg = self.actual(g, bound, recv, c.args, c.keywords, r[1])
                        if arg is None:
                            continue
                        if r[0] == 'P':
                            hit(val(arg, st), c, 'call of %s' % g.name, g)
                        # effects on attributes of an argument are the business of that object
            return

        def store(t, v, st, node):
            if isinstance(t, ast.Name):
                st[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    store(x, frozenset(), st, node)
            elif isinstance(t, ast.Starred):
                store(t.value, frozenset(), st, node)
            elif isinstance(t, ast.Subscript):
                hit(direct(t.value, val(t.value, st)), node, 'item assignment')

        def direct(e, roots):
            """an own attribute written as self.x[...] is the object's own business"""
            if isinstance(e, ast.Subscript):
                return direct(e.value, roots)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls'):
                return frozenset()
            return roots

        def block(body, st):
            for n in body:
                if st is None:
                    return None
                st = stmt(n, st)
            return st

        def join(a, b):
            if a is None:
                return b
            if b is None:
                return a
            return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

        def stmt(n, st):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                return st
            if isinstance(n, ast.Assign):
                effects_in(n.value, st)
                if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) \
                        and len(n.value.elts) == len(n.targets[0].elts):
                    vs = [val(x, st) for x in n.value.elts]
                    for t, v in zip(n.targets[0].elts, vs):
                        store(t, v, st, n)
                    return st
                v = val(n.value, st)
                for t in n.targets:
                    store(t, v, st, n)
                return st
            if isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    effects_in(n.value, st)
                    store(n.target, val(n.value, st), st, n)
                return st
            if isinstance(n, ast.AugAssign):
                effects_in(n.value, st)
                if isinstance(n.target, ast.Name):
                    if n.target.id in arrayish:
                        hit(st.get(n.target.id, frozenset()), n, 'augmented assignment')
                    else:
                        st[n.target.id] = frozenset()
                elif isinstance(n.target, ast.Subscript):
                    hit(direct(n.target.value, val(n.target.value, st)), n, 'augmented item assignment')
                return st
            if isinstance(n, (ast.For, ast.AsyncFor)):
                effects_in(n.iter, st)
                s0 = dict(st)
                for _ in range(2):
                    bind(n.target, n.iter, s0)
                    r = block(n.body, dict(s0))
                    s0 = join(s0, r)
                s0 = block(n.orelse, s0) if n.orelse else s0
                return s0
            if isinstance(n, ast.While):
                effects_in(n.test, st)
                s0 = dict(st)
                for _ in range(2):
                    s0 = join(s0, block(n.body, dict(s0)))
                return s0
            if isinstance(n, ast.If):
                effects_in(n.test, st)
                return join(block(n.body, dict(st)), block(n.orelse, dict(st)))
            if isinstance(n, ast.With):
                for i in n.items:
                    effects_in(i.context_expr, st)
                return block(n.body, st)
            if isinstance(n, ast.Try):
                s0 = dict(st)
                a = block(n.body, dict(st))
                a = block(n.orelse, a) if a is not None and n.orelse else a
                for h in n.handlers:
                    a = join(a, block(h.body, dict(s0)))
                if n.finalbody:
                    a = block(n.finalbody, a if a is not None else s0)
                return a
            if isinstance(n, ast.Return):
                if n.value is not None:
                    effects_in(n.value, st)
                    rets.update(val(n.value, st))
                return None
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        hit(direct(t.value, val(t.value, st)), n, 'del')
                return st
            if isinstance(n, (ast.Raise,)):
                return None
            if isinstance(n, ast.Expr):
                effects_in(n.value, st)
                return st
            return st

        def bind(t, it, st):
            """loop targets: rows of an array are views"""
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
                if it.func.id == 'enumerate' and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    store(t.elts[0], frozenset(), st, t)
                    bind(t.elts[1], it.args[0], st)
                    return
                if it.func.id == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
                    for a, b in zip(t.elts, it.args):
                        bind(a, b, st)
                    return
            if isinstance(t, ast.Name):
                st[t.id] = val(it, st)
            else:
                store(t, frozenset(), st, t)

        block(f.node.body, state)
        return frozenset(rets), eff

    def actual(self, g, bound, recv, args, keywords, pname):
        ps = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if bound is True or bound == 'new':
            if ps[:1] == [pname]:
                return recv
            ps = ps[1:]
        for k in keywords:
            if k.arg == pname:
                return k.value
        if pname in ps:
            i = ps.index(pname)
            if i < len(args) and not any(isinstance(a, ast.Starred) for a in args[:i + 1]):
                return args[i]
        return None

    def apply(self, g, bound, recv, args, keywords, st, val):
        out = set()
        for r in self.ret[id(g.node)]:
            a = self.actual(g, bound, recv, args, keywords, r[1])
            if a is None:
                continue
            for q in val(a, st):
                if r[0] == 'P':
                    out.add(q)
                elif q[0] == 'P':
                    out.add(('A', q[1], r[2]))
                else:
                    out.add(q)
        return out

    def array_names(self, f):
        """names that are certainly used as arrays in the function"""
        out = set()
        for n in own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAY_ATTR:
                out.add(n.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[0] in ('np', 'numpy') and \
                    (dotted(n.func) or '').split('.')[-1] in ('dot', 'sum', 'average', 'mean', 'std', 'concatenate', 'transpose',
                                                              'min', 'max', 'argsort', 'append', 'correlate', 'cumsum', 'diff'):
                for a in n.args[:2]:
                    if isinstance(a, ast.Name):
                        out.add(a.id)
        # an alias of an array is an array
        ch = True
        while ch:
            ch = False
            for n in own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    while isinstance(v, (ast.Attribute, ast.Subscript)) and (not isinstance(v, ast.Attribute) or v.attr in VIEW_ATTR):
                        v = v.value
                    if isinstance(v, ast.Name):
                        a, b = n.targets[0].id, v.id
                        if isinstance(n.value, ast.Name) and (a in out) != (b in out):
                            out |= {a, b}
                            ch = True
                    if isinstance(n.value, ast.Subscript) and isinstance(n.value.slice, (ast.Slice, ast.Tuple)) and \
                            n.targets[0].id not in out and has_slice(n.value.slice):
                        out.add(n.targets[0].id)
                        ch = True
                    if isinstance(n.value, ast.Call) and n.targets[0].id not in out:
                        d = dotted(n.value.func) or ''
                        if d.split('.')[0] in ('np', 'numpy') and d.split('.')[-1] in VIEW_FUNC:
                            out.add(n.targets[0].id)
                            ch = True
        return out


def own(fnode):
    """nodes of a function without nested functions"""
    todo = list(fnode.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def walk_own(e):
    todo = [e]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def has_slice(s):
    if isinstance(s, ast.Slice):
        return True
    return isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts)


def view_index(s, fnode):
    """does the index select a view (integers and slices only)?"""
    if isinstance(s, ast.Tuple):
        return all(view_index(x, fnode) for x in s.elts)
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Constant):
        return s.value is None or s.value is Ellipsis or isinstance(s.value, (int, str))
    if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
        return True
    if isinstance(s, ast.Name):
        for n in own(fnode):
            if isinstance(n, ast.For) or isinstance(n, ast.comprehension):
                t, it = n.target, n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
                    if it.func.id == 'range' and isinstance(t, ast.Name) and t.id == s.id:
                        return True
                    if it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) and t.elts[0].id == s.id:
                        return True
    return False
