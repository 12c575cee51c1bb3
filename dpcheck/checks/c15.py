"""C15: every peak-fitting function obeys one interface."""
import ast

from ..model import Program
from ..names import dotted
from ..reach import Reach


GOOD = 'all_good'
LIBS = ('np', 'numpy', 'math', 'scipy')


def const_index(s):
    i = s.slice
    if isinstance(i, ast.Constant) and isinstance(i.value, int) and not isinstance(i.value, bool):
        return i.value
    if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant) and isinstance(i.operand.value, int):
        return -i.operand.value
    return None


def alive(root):
    """the nodes of a function without the code that is never executed"""
    out = []

    def rec(n):
        out.append(n)
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.Constant) and not n.test.value:
            for c in n.orelse:
                rec(c)
            return
        for c in ast.iter_child_nodes(n):
            rec(c)
    rec(root)
    return out


class Fit:
    """the methods of one fitting class.  Values:
    ('vec',)            the parameters as fitted      ('perm', text)   the same, reordered or cut
    ('el', k)           the k-th fitted parameter     ('scal', f, k)   f times it (sign ignored)
    ('ctor', name)      a constructor argument        ('pair',)        what curve_fit returns
    ('model', v)        the model at v, with the fitted parameters in order
    ('integral',)       integral of the model         ('deps', set)    computed from these parameters
    ('help', f, m, set) f times what the helper method m of the model computes from these
    ('num', x)  ('none',)  ('opt',)"""

    def __init__(self, prog, cls, rep):
        self.prog, self.cls, self.mod, self.rep = prog, cls, cls.mod, rep
        self.reaches = {}
        self.attrvals = {}
        self.busy = set()
        self.model = None           # name of the model method
        self.fits = []              # (method, call)
        for m in self.methods().values():
            for n in alive(m.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'curve_fit' and n.args:
                    self.fits.append((m, n))
                    a = n.args[0]
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == 'self':
                        self.model = self.model or a.attr

    def methods(self):
        out = {}
        for c in reversed(self.cls.mro(self.prog)):
            out.update(c.methods)
        return out

    def reach(self, m):
        k = id(m.node)
        if k not in self.reaches:
            self.reaches[k] = Reach(m.node)
        return self.reaches[k]

    def modelparams(self):
        m = self.methods().get(self.model)
        if m is None:
            return None
        p = m.params()
        if m.node.args.vararg is not None:
            return None
        return p[2:] if not m.is_static() else p[1:]

    # -- values ----------------------------------------------------------
    def attr(self, name):
        if name in self.attrvals:
            return self.attrvals[name]
        if name in self.busy:
            return ('cycle',)
        self.busy.add(name)
        vals = []
        for m in self.methods().values():
            for n in alive(m.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, (ast.Tuple, ast.List)):
                            pairs += [(x, n.value, (i,)) for i, x in enumerate(t.elts)]
                        else:
                            pairs.append((t, n.value, ()))
                for t, v, path in pairs:
                    if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        if isinstance(v, ast.Constant) and v.value is None:
                            continue
                        x = self.walk(self.val(m, v), path)
                        vals.append(x)
        self.busy.discard(name)
        r = self.same(vals)
        self.attrvals[name] = r
        return r

    @staticmethod
    def same(vals):
        vals = [v for v in vals if v != ('cycle',)] or vals
        return vals[0] if vals and all(v == vals[0] for v in vals) else None

    def walk(self, v, path):
        for i in path:
            if v is None or v == ('cycle',):
                return v
            if v == ('pair',):
                v = ('vec',) if i == 0 else ('cov',)
            elif v[0] == 'tuple' and i < len(v[1]):
                v = v[1][i]
            elif v[0] == 'integral':
                v = ('integral',) if i == 0 else None
            elif v == ('vec',):
                v = ('el', i)
            else:
                return None
        return v

    def val(self, m, e, depth=0):
        if depth > 40 or e is None:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return ('none',)
            return ('num', float(e.value)) if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.Name):
            out = []
            for d in self.reach(m).defs(e):
                if d.kind == 'param' and m.name == '__init__':
                    out.append(('ctor', d.name))
                elif d.kind == 'assign':
                    out.append(self.walk(self.val(m, d.value, depth + 1), d.path))
                else:
                    out.append(None)
            return self.same(out)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self':
                return self.attr(e.attr)
            dn = dotted(e)
            if dn in ('np.pi', 'numpy.pi', 'math.pi'):
                return ('num', 3.141592653589793)
            v = self.val(m, e.value, depth + 1)
            if v == ('opt',):
                return ('deps', frozenset(['opt']))
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
                return self.val(m, e.elts[0].value, depth + 1)
            vs = [self.val(m, x, depth + 1) for x in e.elts]
            n = self.modelparams()
            if n is not None and len(vs) == len(n) and all(v == ('el', i) for i, v in enumerate(vs)):
                return ('vec',)
            if vs and all(v is not None and v[0] == 'el' for v in vs):
                return ('perm', ast.unparse(e))
            if ('cycle',) in vs:
                return ('cycle',)
            return ('tuple', tuple(vs))
        if isinstance(e, ast.Subscript):
            v = self.val(m, e.value, depth + 1)
            if v is None:
                return None
            k = const_index(e)
            if v == ('opt',):
                return ('deps', frozenset(['opt']))
            if k is not None:
                n = self.modelparams()
                if v == ('vec',):
                    return ('el', k if k >= 0 else (k + len(n) if n is not None else k))
                return self.walk(v, (k,)) if k >= 0 else None
            if v == ('vec',) and isinstance(e.slice, ast.Slice):
                if e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
                    return v
                n = self.modelparams()
                up = e.slice.upper
                if e.slice.lower is None and e.slice.step is None and isinstance(up, ast.Constant) and n is not None and isinstance(up.value, int) and up.value >= len(n):
                    return v
                return ('perm', ast.unparse(e))
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self.val(m, e.operand, depth + 1)
            return v if v is None or v[0] not in ('num',) else ('num', -v[1] if isinstance(e.op, ast.USub) else v[1])
        if isinstance(e, ast.BinOp):
            a, b = self.val(m, e.left, depth + 1), self.val(m, e.right, depth + 1)
            if a is not None and b is not None:
                f = {'num': lambda v: v[1]}
                if a[0] == 'num' and b[0] == 'num':
                    try:
                        return ('num', {ast.Add: a[1] + b[1], ast.Sub: a[1] - b[1], ast.Mult: a[1] * b[1]}.get(type(e.op), a[1] / b[1] if isinstance(e.op, ast.Div) else None))
                    except ZeroDivisionError:
                        return None
                if isinstance(e.op, ast.Mult) and 'num' in (a[0], b[0]):
                    if b[0] == 'num':
                        a, b = b, a
                    return self.scale(a[1], b)
                if isinstance(e.op, ast.Div) and b[0] == 'num' and b[1]:
                    return self.scale(1.0 / b[1], a)
                if isinstance(e.op, ast.Add) and a == b:
                    return self.scale(2.0, a)
            d = self.deps(a) | self.deps(b)
            return ('deps', d) if d and a is not None and b is not None else None
        if isinstance(e, ast.IfExp):
            a, b = self.val(m, e.body, depth + 1), self.val(m, e.orelse, depth + 1)
            return a if a == b else None
        if isinstance(e, ast.Call):
            return self.call(m, e, depth)
        return None

    @staticmethod
    def scale(f, v):
        f = abs(f)
        if v[0] == 'el':
            return v if f == 1 else ('scal', f, v[1])
        if v[0] == 'scal':
            return ('scal', f * v[1], v[2])
        if v[0] == 'help':
            return ('help', f * v[1], v[2], v[3])
        d = Fit.deps(v)
        return ('deps', d) if d else None

    @staticmethod
    def deps(v):
        if v is None:
            return frozenset()
        if v[0] == 'el':
            return frozenset([v[1]])
        if v[0] == 'scal':
            return frozenset([v[2]])
        if v[0] == 'help':
            return v[3]
        if v[0] == 'deps':
            return v[1]
        return frozenset()

    def call(self, m, e, depth):
        dn = dotted(e.func) or ''
        name = dn.split('.')[-1]
        args = e.args
        if name == 'curve_fit':
            return ('pair',)
        if name in ('quad', 'romberg', 'quad_vec') and args:
            return ('integral',)
        if name in ('minimize_scalar', 'minimize', 'fmin'):
            return ('opt',)
        if name in ('abs', 'fabs', 'absolute', 'float', 'asarray', 'array', 'tuple', 'list', 'copy', 'real', 'float64') and len(args) == 1 and \
                (isinstance(e.func, ast.Name) or dn.split('.')[0] in LIBS):
            return self.val(m, args[0], depth + 1)
        if name in ('copy', 'tolist') and isinstance(e.func, ast.Attribute) and not args:
            return self.val(m, e.func.value, depth + 1)
        if name in ('reversed', 'sorted', 'sort', 'flip', 'roll', 'flipud') and args:
            return ('perm', ast.unparse(e)) if self.val(m, args[0], depth + 1) == ('vec',) else None
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
            t = self.methods().get(e.func.attr)
            if t is None:
                return None
            if e.func.attr == self.model:
                return ('model', self.val(m, args[0], depth + 1) if args else None)
            rets = [self.val(t, r.value, depth + 1) for r in self.reach(t).ret if r.value is not None]
            if self.same(rets) is not None:
                return self.same(rets)
            vs = [self.val(m, a, depth + 1) for a in args]
            d = frozenset().union(*[self.deps(v) for v in vs]) if vs else frozenset()
            return ('help', 1.0, e.func.attr, d) if d else None
        if isinstance(e.func, ast.Name) or dn.split('.')[0] in LIBS:
            vs = [self.val(m, a, depth + 1) for a in args]
            d = frozenset().union(*[self.deps(v) for v in vs]) if vs else frozenset()
            return ('deps', d) if d and all(v is not None for v in vs) else None
        return None


# -- what the parameters of a model mean -------------------------------------
def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Roles:
    """roles of the parameters of a model function, from its formula"""

    def __init__(self, fit):
        self.fit = fit
        self.role = {}
        m = fit.methods().get(fit.model)
        self.helperfactor = {}
        self.m = m
        self.params = fit.modelparams() or []
        self.widthfactor = None
        if m is None:
            return
        p = m.params()
        self.x = p[1] if not m.is_static() else p[0]
        rets = [r.value for r in fit.reach(m).ret if r.value is not None]
        if len(rets) != 1:
            return
        self.expr = rets[0]
        self.exprs = []
        self.close(rets[0], m, set(), {})
        self.classify()

    def inline(self, e, m, bind, depth=0):
        """the expression with local names, helper methods and parameters replaced"""
        fit = self.fit
        outer = self

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in bind:
                    return bind[n.id]
                d = fit.reach(m).one(n)
                if d is not None and d.kind == 'assign' and d.path == () and depth < 12:
                    return outer.inline(d.value, m, bind, depth + 1)
                return n

            def visit_Call(self, n):
                f = n.func
                t = None
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self':
                    t = fit.methods().get(f.attr)
                elif isinstance(f, ast.Name) and fit.reach(m).one(f) is not None and fit.reach(m).one(f).kind == 'free':
                    t = fit.mod.funcs.get(f.id)
                args = [self.visit(a) for a in n.args]
                if t is not None and depth < 6 and not any(isinstance(a, ast.Starred) for a in n.args):
                    r = [x.value for x in fit.reach(t).ret if x.value is not None]
                    if len(r) == 1:
                        ps = t.params()
                        if t.cls is not None and not t.is_static():
                            ps = ps[1:]
                        b = dict(zip(ps, args))
                        for k in n.keywords:
                            b[k.arg] = self.visit(k.value)
                        return outer.inline(r[0], t, b, depth + 1)
                return ast.Call(func=f, args=args, keywords=[ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords])
        import copy
        # the nodes must stay the originals for Reach: transform without copying, building new nodes
        return self.rebuild(e, T())

    def rebuild(self, e, t):
        if isinstance(e, (ast.Name, ast.Call)):
            return t.visit(e)
        n = e.__class__()
        for f, v in ast.iter_fields(e):
            if isinstance(v, list):
                setattr(n, f, [self.rebuild(x, t) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.expr):
                setattr(n, f, self.rebuild(v, t))
            else:
                setattr(n, f, v)
        return n

    def close(self, e, m, seen, bind):
        self.full = self.inline(e, m, bind)
        # ((x - a)/self.helper(...))^2 added to one
        for n in ast.walk(e):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                for u, v in ((n.left, n.right), (n.right, n.left)):
                    if isinstance(u, ast.Constant) and u.value == 1 and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Pow) and \
                            isinstance(v.right, ast.Constant) and v.right.value == 2 and isinstance(v.left, ast.BinOp) and isinstance(v.left.op, ast.Div):
                        h, t = v.left.right, v.left.left
                        if isinstance(h, ast.Name):
                            d = self.fit.reach(m).one(h)
                            h = d.value if d is not None and d.kind == 'assign' and d.path == () else h
                        if isinstance(t, ast.BinOp) and isinstance(t.op, ast.Sub) and self.x in (ast.unparse(t.left), ast.unparse(t.right)) and \
                                isinstance(h, ast.Call) and isinstance(h.func, ast.Attribute) and isinstance(h.func.value, ast.Name) and h.func.value.id == 'self':
                            self.helperfactor[h.func.attr] = 2.0

    def classify(self):
        e = self.full
        ps = set(self.params)
        # terms of the outer sum: a bare parameter is the base line
        terms, sign = [], []

        def summands(n):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                summands(n.left)
                summands(n.right)
            else:
                terms.append(n)
        summands(e)
        rest = []
        for t in terms:
            if isinstance(t, ast.Name) and t.id in ps:
                self.role[t.id] = 'base line'
            else:
                rest.append(t)
        if len(rest) != 1:
            return
        t = rest[0]
        # factors of the numerator: a bare parameter occurring nowhere else is the scale
        numer, denom = [], []

        def factors(n, up):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                factors(n.left, up)
                factors(n.right, up)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
                factors(n.left, up)
                factors(n.right, not up)
            else:
                (numer if up else denom).append(n)
        factors(t, True)
        self.numer, self.denom = numer, denom
        count = {}
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                count[n.id] = count.get(n.id, 0) + 1
        for n in numer:
            if isinstance(n, ast.Name) and n.id in ps and count[n.id] == 1:
                self.role[n.id] = 'area'
        # position: subtracted from x in like form
        exps = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'exp':
                exps |= {id(y) for y in ast.walk(n)}
        for n in ast.walk(e):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
                l, r = names_in(n.left), names_in(n.right)
                for a, b, ea, eb in ((l, r, n.left, n.right), (r, l, n.right, n.left)):
                    if a & (ps | {self.x}) == {self.x} and len(b & ps) == 1 and self.x not in b:
                        p = next(iter(b & ps))
                        same = ast.unparse(ea).replace(self.x, '@') == ast.unparse(eb).replace(p, '@')
                        if same and p not in self.role:
                            self.role[p] = 'position'
        # asymmetry: only inside an exponential together with (x - position), where the peak is not an exponential itself
        outexp = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and id(n) not in exps}
        left = [p for p in self.params if p not in self.role]
        for p in left:
            if p not in outexp and self.x in outexp:
                self.role[p] = 'asymmetry'
        left = [p for p in self.params if p not in self.role]
        if len(left) == 1:
            self.role[left[0]] = 'width'
        self.factor()

    def factor(self):
        """full width at half maximum = factor times the width parameter, for a Lorentzian (1 + ((x - a)/b)^2) and for a damped
        oscillator ((a^2 - x^2)^2 + (b x)^2)"""
        w = [p for p in self.params if self.role.get(p) == 'width']
        a = [p for p in self.params if self.role.get(p) == 'position']
        if len(w) != 1 or len(a) != 1:
            return
        w, a = w[0], a[0]

        def squared(n):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return n.left
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'square' and len(n.args) == 1:
                return n.args[0]
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and ast.dump(n.left) == ast.dump(n.right):
                return n.left
            return None

        def wtext(n):
            return ast.unparse(n)
        for d in self.denom:
            if not (isinstance(d, ast.BinOp) and isinstance(d.op, ast.Add)):
                continue
            for u, v in ((d.left, d.right), (d.right, d.left)):
                s = squared(v)
                if s is None:
                    continue
                if isinstance(u, ast.Constant) and u.value == 1 and isinstance(s, ast.BinOp) and isinstance(s.op, ast.Div):
                    if wtext(s.left) in ('%s - %s' % (self.x, a), '%s - %s' % (a, self.x)):
                        if wtext(s.right) == w:
                            self.widthfactor = 2.0
                            return
                u2 = squared(u)
                if u2 is not None and isinstance(u2, ast.BinOp) and isinstance(u2.op, ast.Sub):
                    sides = {wtext(x) for x in (squared(u2.left), squared(u2.right)) if x is not None}
                    if sides == {self.x, a} and isinstance(s, ast.BinOp) and isinstance(s.op, ast.Mult) and {wtext(s.left), wtext(s.right)} == {self.x, w}:
                        self.widthfactor = 1.0
                        return


# -- registry ------------------------------------------------------------------
def registry(prog):
    """(module, name, dict of number -> class)"""
    for mn in sorted(prog.modules):
        m = prog.modules[mn]
        for name, vals in m.assigns.items():
            for v in vals:
                if isinstance(v, ast.Dict) and v.keys:
                    ent = {}
                    ok = True
                    dup = None
                    for k, x in zip(v.keys, v.values):
                        c = m.resolve(x.id) if isinstance(x, ast.Name) else None
                        if not (isinstance(k, ast.Constant) and isinstance(k.value, int) and c and c[0] == 'class'):
                            ok = False
                            break
                        if k.value in ent:
                            dup = k.value
                        ent[k.value] = c[1]
                    if ok and any(any(isinstance(n, ast.Name) and n.id == 'curve_fit' or isinstance(n, ast.Attribute) and n.attr == 'curve_fit'
                                      for mm in c.methods.values() for n in ast.walk(mm.node)) for c in ent.values()):
                        return m, name, ent, v, dup
    return None


def success_dicts(fit, m, depth=0):
    """[(keys -> value expression or None if unknown, owner method, node, in_handler)] returned by the method; None when unknown"""
    out = []
    handlers = set()
    for n in alive(m.node):
        if isinstance(n, ast.ExceptHandler):
            for x in ast.walk(n):
                handlers.add(id(x))
    for r in fit.reach(m).ret:
        v = r.value
        if v is None:
            out.append(({}, m, r, id(r) in handlers))
            continue
        d = build(fit, m, v, r, 0)
        if d is None:
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self' and depth < 3:
                t = fit.methods().get(v.func.attr)
                sub = success_dicts(fit, t, depth + 1) if t is not None else None
                if sub is None:
                    return None
                out += [(a, b, c, h or id(r) in handlers) for a, b, c, h in sub]
                continue
            return None
        out.append((d, m, r, id(r) in handlers))
    return out


def build(fit, m, v, at, depth):
    if depth > 6:
        return None
    if isinstance(v, ast.Dict):
        d = {}
        for k, x in zip(v.keys, v.values):
            if k is None:
                s = build(fit, m, x, at, depth + 1)
                if s is None:
                    return None
                d.update(s)
            elif isinstance(k, ast.Constant) and isinstance(k.value, str):
                d[k.value] = x
            else:
                return None
        return d
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
        d = {}
        if v.args:
            s = build(fit, m, v.args[0], at, depth + 1) if len(v.args) == 1 else None
            if s is None:
                return None
            d.update(s)
        for k in v.keywords:
            if k.arg is None:
                return None
            d[k.arg] = k.value
        return d
    if isinstance(v, ast.Name):
        ds = fit.reach(m).defs(v)
        if len(ds) != 1:
            return None
        x = next(iter(ds))
        if x.kind != 'assign' or x.path:
            return None
        d = build(fit, m, x.value, at, depth + 1)
        if d is None:
            return None
        for n in alive(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == v.id:
                        if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) and straight(m.node, n, at):
                            d[t.slice.value] = n.value
                        else:
                            return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == v.id:
                if n.func.attr == 'update' and straight(m.node, n, at):
                    if n.args:
                        s = build(fit, m, n.args[0], at, depth + 1)
                        if s is None:
                            return None
                        d.update(s)
                    for k in n.keywords:
                        d[k.arg] = k.value
                elif n.func.attr in ('pop', 'setdefault', 'clear', 'update'):
                    return None
            if isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == v.id for t in n.targets):
                return None
        return d
    return None


def straight(root, n, at):
    """n's statement is in a block that encloses `at`, before it (so it is always executed before)"""
    pos = {}

    def rec(body, chain):
        for i, s in enumerate(body):
            c = chain + [(id(body), i)]
            for x in ast.walk(s):
                pos.setdefault(id(x), c)
                if len(c) > len(pos[id(x)]):
                    pos[id(x)] = c
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    rec(b, c)
            for h in getattr(s, 'handlers', []):
                rec(h.body, c)
    rec(root.body, [])
    a, b = pos.get(id(n)), pos.get(id(at))
    if a is None or b is None:
        return False
    return len(a) <= len(b) and a[:-1] == b[:len(a) - 1] and a[-1][0] == b[len(a) - 1][0] and a[-1][1] <= b[len(a) - 1][1]


def truth(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None


# -- consumers -------------------------------------------------------------------
class Use:
    """reads of the result of get_fitting in a function: each is preceded by a test that the fit succeeded"""

    def __init__(self, mod, node, where):
        self.mod, self.node, self.where = mod, node, where
        self.reach = Reach(node)
        self.reads = []       # (key, node, good)
        self.results = {}
        self.block(node.body if not isinstance(node, ast.Lambda) else [], False, False)

    def isresult(self, e):
        if isinstance(e, ast.Name):
            ds = self.reach.defs(e)
            return bool(ds) and all(d.kind == 'assign' and d.path == () and self.isfit(d.value) for d in ds)
        return self.isfit(e)

    @staticmethod
    def isfit(e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get_fitting'

    def key(self, e):
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) and self.isresult(e.value):
            return e.slice.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and e.args and isinstance(e.args[0], ast.Constant) and self.isresult(e.func.value):
            return e.args[0].value
        return None

    def cond(self, e):
        """+1: true means the fit is good; -1: false means so; 2: true implies, 0 unknown"""
        if isinstance(e, ast.Name):
            d = self.reach.one(e)
            if d is not None and d.kind == 'assign' and d.path == ():
                return self.cond(d.value)
            return (False, False)
        k = self.key(e)
        if k == GOOD:
            return (True, False)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
            return self.cond(e.args[0])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand)
            return (b, a)
        if isinstance(e, ast.BoolOp):
            cs = [self.cond(v) for v in e.values]
            if isinstance(e.op, ast.And):
                return (any(c[0] for c in cs), all(c[1] for c in cs))
            return (all(c[0] for c in cs), any(c[1] for c in cs))
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool):
            a, b = self.cond(e.left)
            v = e.comparators[0].value
            if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                v = not v
            return (a, b) if v else (b, a)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.left, ast.Constant) and \
                e.left.value != GOOD and self.isresult(e.comparators[0]):
            return (True, False) if isinstance(e.ops[0], ast.In) else (False, True)
        return (False, False)

    def expr(self, e, good, safe):
        if e is None or isinstance(e, ast.Lambda):
            return
        k = self.key(e)
        if k is not None and k != GOOD and not isinstance(getattr(e, 'ctx', None), ast.Store):
            self.reads.append((k, e, good or safe or isinstance(e, ast.Call)))
        if isinstance(e, ast.IfExp):
            self.expr(e.test, good, safe)
            a, b = self.cond(e.test)
            self.expr(e.body, good or a, safe)
            self.expr(e.orelse, good or b, safe)
            return
        if isinstance(e, ast.BoolOp):
            g = good
            for v in e.values:
                self.expr(v, g, safe)
                a, b = self.cond(v)
                g = g or (a if isinstance(e.op, ast.And) else b)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, good, safe)
            elif isinstance(c, (ast.keyword,)):
                self.expr(c.value, good, safe)
            elif isinstance(c, ast.comprehension):
                self.expr(c.iter, good, safe)

    def block(self, body, good, safe):
        """the state after, None when the end is not reached"""
        for s in body:
            good = self.stmt(s, good, safe)
            if good is None:
                return None
        return good

    def stmt(self, s, good, safe):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return good
        if isinstance(s, ast.If):
            self.expr(s.test, good, safe)
            a, b = self.cond(s.test)
            t = truth(s.test)
            x = self.block(s.body, good or a, safe) if t is not False else None
            y = self.block(s.orelse, good or b, safe) if t is not True else None
            if x is None:
                return y
            if y is None:
                return x
            return x and y
        if isinstance(s, (ast.For, ast.While)):
            self.expr(s.iter if isinstance(s, ast.For) else s.test, good, safe)
            self.block(s.body, good, safe)
            self.block(s.orelse, good, safe)
            return good
        if isinstance(s, ast.Try):
            catches = any(h.type is None or any((dotted(x) or '').split('.')[-1] in ('KeyError', 'LookupError', 'Exception', 'BaseException')
                                                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])) for h in s.handlers)
            x = self.block(s.body, good, safe or catches)
            if x is not None:
                x = self.block(s.orelse, x, safe)
            for h in s.handlers:
                y = self.block(h.body, good, safe)
                x = y if x is None else x if y is None else x and y
            if s.finalbody:
                z = self.block(s.finalbody, good, safe)
                x = None if z is None else x
            return x
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, good, safe)
            return self.block(s.body, good, safe)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, good, safe)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assert):
            self.expr(s.test, good, safe)
            return good or self.cond(s.test)[0]
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, good, safe)
        if isinstance(s, ast.Assign) and self.isfit(s.value):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or '') in ('exit', 'quit', 'sys.exit', 'os._exit'):
            return None
        return good


def run(rep):
    rep.rule('failure', 'get_fitting catches the failure of the optimiser and then returns all_good False, and true in no failing way out')
    rep.rule('keys', 'a successful fit of every registered function has every quantity its users read')
    rep.rule('roles', 'each quantity is computed from the fitted parameter that has this role in the model formula')
    rep.rule('order', 'the model is always evaluated with the parameters in the order in which they were fitted')
    rep.rule('guess', 'the initial guess has one value per model parameter, each for its own parameter; data and frequencies are fitted in their places')
    rep.rule('tested', 'a quantity of a fit is read only after the fit was found good')
    rep.rule('uniform', 'what is used of any fitting function exists in every one of them, with the same constructor arguments')
    rep.rule('registry', 'each number selects its own function')
    prog = Program()
    reg = registry(prog)
    rep.need(reg is not None, 'no registry of fitting functions found')
    mod, regname, entries, regnode, dup = reg
    where = '%s:%d' % (mod.rel, regnode.lineno)
    if dup is not None:
        rep.bad('registry', 'number %r twice' % dup, where, 'the number %r is given to two fitting functions' % dup)
    seen = {}
    for k, c in sorted(entries.items()):
        if c.name in seen:
            rep.bad('registry', 'numbers %d and %d' % (seen[c.name], k), where, 'two numbers select the same fitting function %s' % c.name)
        else:
            rep.ok('registry', '%d selects %s' % (k, c.name))
        seen[c.name] = k
    if sorted(entries) == list(range(len(entries))):
        rep.ok('registry', 'numbers run from 0 to %d' % (len(entries) - 1))
    else:
        rep.bad('registry', 'numbers of the registry', where, 'the numbers of the fitting functions (%s) are not consecutive: the menu offers and accepts those below their count' % sorted(entries))
    # other classes with the same interface
    classes = []
    for mm in prog.modules.values():
        for c in mm.classes.values():
            if 'get_fitting' in {x for b in c.mro(prog) for x in b.methods} and c not in classes:
                classes.append(c)
    fits = {}
    # -- consumers
    needed = set()
    regattrs = {}
    for f in prog.functions():
        names = [n for n in alive(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get_fitting']
        if not names or (f.cls is not None and f.name in ('get_fitting', 'get_curve', 'get_fitting_parameters') and f.cls.name in {c.name for c in classes}):
            continue
        u = Use(f.mod, f.node, f.where)
        generic = True
        r = Reach(f.node)
        inst = set()
        for n in names:
            o = n.func.value
            cands = [d for d in r.defs(o)] if isinstance(o, ast.Name) else []
            for d in cands:
                if d.kind == 'assign' and isinstance(d.value, ast.Call):
                    g = d.value.func
                    dn = (dotted(g) or '').split('.')[-1]
                    if dn in {c.name for c in classes}:
                        generic = False
                    inst.add(o.id)
                    ctor(rep, f, d.value, r, [c for c in classes if c.name == dn] if dn in {c.name for c in classes} else list(entries.values()))
        if generic:
            for n in alive(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in inst and isinstance(n.ctx, ast.Load):
                    regattrs.setdefault(n.attr, f)
        for k, n, good in u.reads:
            opt = any(True for x in [0] if not isinstance(n, ast.Subscript))
            if not good:
                rep.bad('tested', '%s reads %s' % (f.qual, k), f.where(n), 'the quantity %r of a fit is read without testing that the fit succeeded (a failed fit does not have it)' % k)
            else:
                rep.ok('tested', '%s reads %s' % (f.qual, k))
            if generic and isinstance(n, ast.Subscript) and not guarded_by_in(u, f.node, n, k):
                needed.add(k)
    # -- providers
    for c in classes:
        fit = Fit(prog, c, rep)
        fits[c.name] = fit
        provider(rep, prog, c, fit, needed if c in entries.values() else set())
    for a, f in sorted(regattrs.items()):
        for k, c in sorted(entries.items()):
            have = set()
            for b in c.mro(prog):
                have |= set(b.methods) | set(b.getters) | set(b.attrs)
                for mth in list(b.methods.values()) + list(b.getters.values()):
                    for n in alive(mth.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                            have.add(n.attr)
            if a in have:
                rep.ok('uniform', '%s has %s' % (c.name, a))
            else:
                rep.bad('uniform', '%s.%s' % (c.name, a), c.mod.rel + ':%d' % c.node.lineno, '%s uses %r of whichever fitting function is selected: %s has none' % (f.qual, a, c.name))
    # a fit whose error cannot be estimated
    tests = {}
    for c in classes:
        tests[c.name] = any(isinstance(n, ast.Call) and ((dotted(n.func) or '').split('.')[-1] in ('isnan', 'isfinite', 'isinf', 'isreal') or tests_number(c.mod, n))
                            for b in c.mro(prog) for mth in b.methods.values() for n in alive(mth.node)) or any(
            isinstance(n, ast.Compare) and ast.dump(n.left) == ast.dump(n.comparators[0]) for b in c.mro(prog) for mth in b.methods.values() for n in alive(mth.node))
    if sum(tests.values()) * 2 > len(tests):
        for c in classes:
            if tests[c.name]:
                rep.ok('failure', '%s tests that the error is a number' % c.name)
            else:
                rep.bad('failure', '%s does not test the error' % c.name, '%s:%d' % (c.mod.rel, c.node.lineno),
                        'a fit of %s whose error is not a number is reported as successful (the other functions report it as failed)' % c.name)
    # attributes that carry the fitted parameters
    for a, f in sorted(regattrs.items()):
        vals = {c.name: fits[c.name].attr(a) for c in entries.values() if c.name in fits and a not in fits[c.name].methods()}
        if any(v == ('vec',) for v in vals.values()):
            for n, v in sorted(vals.items()):
                if v == ('vec',):
                    rep.ok('uniform', '%s.%s holds the fitted parameters' % (n, a))
                elif v is not None and v[0] in ('perm', 'el', 'cov', 'pair'):
                    rep.bad('uniform', '%s.%s parameters' % (n, a), fits[n].mod.rel, '%s does not hold the fitted parameters in order in %s as the other functions do' % (a, n))
                else:
                    rep.skip('uniform', '%s.%s' % (n, a), 'value not recognised')
    return


def tests_number(mod, call):
    if isinstance(call.func, ast.Name) and call.func.id in mod.funcs:
        return any(isinstance(x, (ast.Attribute, ast.Name)) and (getattr(x, 'attr', None) or getattr(x, 'id', None)) in ('isnan', 'isfinite')
                   for x in ast.walk(mod.funcs[call.func.id].node))
    return False


def guarded_by_in(u, root, node, k):
    """the read is inside 'if k in result'"""
    for n in ast.walk(root):
        tests = []
        if isinstance(n, (ast.If, ast.IfExp)):
            for t in ast.walk(n.test):
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Constant) and t.left.value == k:
                    tests.append(t)
        if tests and any(x is node for b in ([n.body] if isinstance(n, ast.IfExp) else n.body) for x in ast.walk(b)):
            return True
    return False


def ctor(rep, f, call, r, classes):
    """the arguments with which a fitting function is created"""
    for c in classes:
        init = None
        for b in c.mro(f.mod.prog):
            if '__init__' in b.methods:
                init = b.methods['__init__']
                break
        if init is None:
            rep.bad('uniform', '%s constructor' % c.name, c.mod.rel + ':%d' % c.node.lineno, '%s has no constructor taking the data to fit' % c.name)
            continue
        ps = init.params()[1:]
        kws = {a.arg for a in init.node.args.kwonlyargs} | set(ps)
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or init.node.args.kwarg or init.node.args.vararg:
            rep.skip('uniform', c.name, 'arguments not enumerable')
            continue
        unknown = [k.arg for k in call.keywords if k.arg not in kws]
        given = set(ps[:len(call.args)]) | {k.arg for k in call.keywords}
        nreq = len(ps) - len(init.node.args.defaults)
        missing = [p for p in ps[:nreq] if p not in given]
        if unknown or missing or len(call.args) > len(ps):
            rep.bad('uniform', '%s constructed in %s' % (c.name, f.qual), f.where(call), 'the fitting function %s does not take these arguments (%s)' % (c.name, ', '.join(
                ['unknown ' + x for x in unknown] + ['missing ' + x for x in missing]) or 'too many'))
        else:
            rep.ok('uniform', '%s takes the arguments of %s' % (c.name, f.qual))
        # positional roles: the height guess is never given as position
        for p, a in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords]:
            kind = guess_kind(a, r)
            if kind and p in ('guess_position', 'guess_height') and kind != p:
                rep.bad('guess', '%s %s in %s' % (c.name, p, f.qual), f.where(call), 'the %s of the spectrum is given as %s' % ({'guess_position': 'frequency of the maximum', 'guess_height': 'height of the maximum'}[kind], p))
            elif kind and p == kind:
                rep.ok('guess', '%s: %s of %s' % (f.qual, p, c.name))


def guess_kind(a, r, depth=0):
    if depth > 5:
        return None
    if isinstance(a, ast.Name):
        d = r.one(a)
        return guess_kind(d.value, r, depth + 1) if d is not None and d.kind == 'assign' and d.path == () else None
    if isinstance(a, ast.Call):
        n = (dotted(a.func) or '').split('.')[-1] or getattr(a.func, 'attr', '')
        if n in ('max', 'amax', 'nanmax'):
            return 'guess_height'
        if n in ('argmax', 'nanargmax'):
            return None
    if isinstance(a, ast.Subscript):
        i = a.slice
        if isinstance(i, ast.Name):
            d = r.one(i)
            i = d.value if d is not None and d.kind == 'assign' and d.path == () else i
        if isinstance(i, ast.Call) and ((dotted(i.func) or '').split('.')[-1] or getattr(i.func, 'attr', '')) in ('argmax', 'nanargmax'):
            arg = i.args[0] if i.args else i.func.value if isinstance(i.func, ast.Attribute) else None
            if arg is not None and ast.unparse(arg) == ast.unparse(a.value):
                return 'guess_height'
            return 'guess_position'
    return None


WANT = {'peak_position': 'position', 'base_line': 'base line', 'area': 'area', 'width': 'width', 'asymmetry': 'asymmetry'}


def provider(rep, prog, c, fit, needed):
    mod = c.mod
    base = '%s:%d' % (mod.rel, c.node.lineno)
    gf = fit.methods()['get_fitting']
    if fit.model is None:
        rep.skip('order', c.name, 'no model method handed to curve_fit')
        return
    params = fit.modelparams()
    roles = Roles(fit)
    idx = {p: i for i, p in enumerate(params or [])}
    byrole = {}
    for p, r in roles.role.items():
        byrole.setdefault(r, []).append(idx[p])
    # -- results and failure
    rets = success_dicts(fit, gf)
    if rets is None:
        rep.skip('keys', c.name, 'the returned dictionaries are not enumerable')
    else:
        nfail = 0
        for d, m, r, inh in rets:
            g = d.get(GOOD)
            t = truth(g) if g is not None else None
            if g is None:
                rep.bad('failure', '%s result without %s' % (c.name, GOOD), m.where(r), 'a result of %s.get_fitting does not say whether the fit succeeded' % c.name)
            elif t is False:
                nfail += 1
                rep.ok('failure', '%s reports a failed fit' % c.name)
            elif t is True and inh:
                rep.bad('failure', '%s handler reports success' % c.name, m.where(r), 'a failed fit of %s is reported as successful' % c.name)
            elif t is True:
                miss = sorted(k for k in needed if k not in d)
                if miss:
                    rep.bad('keys', '%s without %s' % (c.name, ', '.join(miss)), m.where(r), 'a successful fit of %s lacks %s, which is read of whichever function is selected' % (c.name, ', '.join(miss)))
                else:
                    rep.ok('keys', '%s has %s' % (c.name, ', '.join(sorted(needed))))
                for k in sorted(d):
                    if k in WANT:
                        role_of(rep, c, fit, m, k, d[k], roles, byrole, params)
            else:
                rep.skip('failure', c.name, 'all_good is computed')
                nfail += 1
        # the optimiser raises RuntimeError when it does not converge
        raising = covered(fit, gf)
        if raising is False:
            rep.bad('failure', '%s does not catch a failed optimisation' % c.name, gf.where(), '%s.get_fitting does not catch the RuntimeError of an optimisation that does not converge: the analysis of all the modes ends with it' % c.name)
        elif raising is True and nfail:
            rep.ok('failure', '%s catches a failed optimisation' % c.name)
        elif raising is True:
            rep.bad('failure', '%s never reports a failed fit' % c.name, gf.where(), 'no way out of %s.get_fitting reports a failed fit' % c.name)
    # -- evaluation order
    if params is None:
        rep.skip('order', c.name, 'parameters of the model not enumerable')
        return
    for m in fit.methods().values():
        for n in alive(m.node):
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr == fit.model and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                evaluation(rep, c, fit, m, n, n.args[1:], {k.arg: k.value for k in n.keywords}, params)
            elif (dotted(n.func) or '').split('.')[-1] in ('quad', 'minimize', 'minimize_scalar', 'fmin') and n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == fit.model:
                a = [k.value for k in n.keywords if k.arg == 'args']
                if a:
                    evaluation(rep, c, fit, m, n, [ast.Starred(value=a[0], ctx=ast.Load())], {}, params)
    helpers(rep, c, fit, roles, params)
    # -- guesses
    init = fit.methods().get('__init__')
    for m, n in fit.fits:
        if n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr == fit.model and len(n.args) >= 3 and init is not None:
            ps = init.params()[1:]
            a, b = fit.val(m, n.args[1]), fit.val(m, n.args[2])
            if a is not None and b is not None and a[0] == b[0] == 'ctor' and len(ps) >= 2:
                if (a[1], b[1]) == (ps[0], ps[1]):
                    rep.ok('guess', '%s fits the spectrum against the frequencies' % c.name)
                else:
                    rep.bad('guess', '%s data' % c.name, m.where(n), '%s fits %s as a function of %s' % (c.name, b[1], a[1]))
        p0 = [k.value for k in n.keywords if k.arg == 'p0'] + n.args[3:4]
        if p0:
            v = p0[0]
            if isinstance(v, ast.Name):
                d = fit.reach(m).one(v)
                v = d.value if d is not None and d.kind == 'assign' and d.path == () else v
            if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ('array', 'asarray', 'tuple', 'list') and v.args:
                v = v.args[0]
            if isinstance(v, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in v.elts):
                if len(v.elts) != len(params):
                    rep.bad('guess', '%s number of guesses' % c.name, m.where(n), '%s gives %d initial values for the %d parameters of its model' % (c.name, len(v.elts), len(params)))
                else:
                    rep.ok('guess', '%s has one initial value per parameter' % c.name)
                for i, x in enumerate(v.elts[:len(params)]):
                    y = fit.val(m, x)
                    if y is not None and y[0] == 'ctor':
                        r = roles.role.get(params[i])
                        want = {'guess_position': 'position', 'guess_height': 'area'}.get(y[1])
                        if want and r and r != want:
                            rep.bad('guess', '%s initial %s' % (c.name, r), m.where(n), '%s starts its %s parameter (%s) from %s' % (c.name, r, params[i], y[1]))
                        elif want and r:
                            rep.ok('guess', '%s starts its %s from %s' % (c.name, r, y[1]))
            else:
                rep.skip('guess', c.name, 'initial values not enumerable')


def covered(fit, gf):
    """is every use of the optimiser in get_fitting inside a try that catches RuntimeError"""
    res = []

    doing = {m.name for m, n in fit.fits}
    for _ in range(3):
        for m in fit.methods().values():
            if m.name != 'get_fitting' and any(isinstance(x, ast.Attribute) and x.attr in doing and isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(m.node)):
                doing.add(m.name)

    def fits_in(n):
        return any(isinstance(x, ast.Call) and ((dotted(x.func) or '').split('.')[-1] == 'curve_fit' or isinstance(x.func, ast.Attribute) and x.func.attr in doing and
                                                isinstance(x.func.value, ast.Name) and x.func.value.id == 'self') for x in ast.walk(n))

    def rec(body, safe):
        for s in body:
            if isinstance(s, ast.Try):
                c = any(h.type is None or any((dotted(x) or '').split('.')[-1] in ('RuntimeError', 'Exception', 'BaseException')
                                              for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])) for h in s.handlers)
                rec(s.body, safe or c)
                rec(s.orelse, safe)
                rec(s.finalbody, safe)
                for h in s.handlers:
                    rec(h.body, safe)
                continue
            subs = [getattr(s, f) for f in ('body', 'orelse') if isinstance(getattr(s, f, None), list)]
            heads = [c for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)]
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if any(fits_in(h) for h in heads):
                res.append(safe)
            for b in subs:
                rec(b, safe)
    rec(gf.node.body, False)
    if not res:
        return None
    return res[0]       # the first use is the one that may raise; the parameters are kept afterwards


def evaluation(rep, c, fit, m, n, args, kws, params):
    key = '%s.%s evaluates the model' % (c.name, m.name)
    if len(args) == 1 and isinstance(args[0], ast.Starred) and not kws:
        v = fit.val(m, args[0].value)
        if v == ('vec',):
            rep.ok('order', key)
        elif v is not None and v[0] == 'perm':
            rep.bad('order', key, m.where(n), 'the model of %s is evaluated with its parameters in another order than they were fitted: %s' % (c.name, v[1]))
        elif v is not None and v[0] in ('cov', 'pair'):
            rep.bad('order', key, m.where(n), 'the model of %s is not evaluated with the fitted parameters' % c.name)
        else:
            rep.skip('order', key, 'parameters not recognised')
        return
    for i, a in enumerate(args):
        if isinstance(a, ast.Starred):
            rep.skip('order', key, 'parameters not enumerable')
            return
        v = fit.val(m, a)
        if v is not None and v[0] == 'el' and i < len(params):
            if v[1] == i:
                rep.ok('order', key + ' %d' % i)
            else:
                rep.bad('order', key + ' parameter %d' % i, m.where(n), 'the model of %s is evaluated with fitted parameter %d as its parameter %d (%s)' % (c.name, v[1], i, params[i]))
    for k, a in kws.items():
        v = fit.val(m, a)
        if v is not None and v[0] == 'el' and k in params:
            i = params.index(k)
            if v[1] == i:
                rep.ok('order', key + ' %s' % k)
            else:
                rep.bad('order', key + ' parameter %s' % k, m.where(n), 'the model of %s is evaluated with fitted parameter %d as %s' % (c.name, v[1], k))


def helpers(rep, c, fit, roles, params):
    """a helper of the model (asymmetric width) called elsewhere takes the same parameters"""
    model = fit.methods()[fit.model]
    slots = {}
    for n in alive(model.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr in fit.methods():
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id in params and fit.reach(model).one(a) is not None and fit.reach(model).one(a).kind == 'param':
                    s = slots.setdefault((n.func.attr, i), set())
                    s.add(params.index(a.id))
    for m in fit.methods().values():
        if m.name == fit.model:
            continue
        for n in alive(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                for i, a in enumerate(n.args):
                    s = slots.get((n.func.attr, i))
                    if s and len(s) == 1:
                        v = fit.val(m, a)
                        if v is not None and v[0] == 'el':
                            k = next(iter(s))
                            key = '%s.%s calls %s' % (c.name, m.name, n.func.attr)
                            if v[1] == k:
                                rep.ok('order', key + ' argument %d' % i)
                            else:
                                rep.bad('order', key + ' argument %d' % i, m.where(n), 'fitted parameter %d is passed where the model passes its parameter %d (%s)' % (v[1], k, params[k]))


def role_of(rep, c, fit, m, key, expr, roles, byrole, params):
    role = WANT[key]
    idx = byrole.get(role)
    v = fit.val(m, expr)
    name = '%s %s' % (c.name, key)
    if v is None or idx is None or len(idx) != 1:
        rep.skip('roles', name, 'not recognised')
        return
    idx = idx[0]
    where = m.where(expr)
    inv = {i: r for r, l in byrole.items() for i in l}
    if v[0] in ('el', 'scal'):
        k = v[1] if v[0] == 'el' else v[2]
        if k != idx:
            rep.bad('roles', name, where, '%s of %s is taken from fitted parameter %d, the %s of its model, not from parameter %d' % (key, c.name, k, inv.get(k, 'parameter ' + (params[k] if k < len(params) else '?')), idx))
            return
        if key in ('peak_position', 'base_line', 'asymmetry') and v[0] == 'scal':
            rep.bad('roles', name, where, '%s of %s is %g times the fitted one' % (key, c.name, v[1]))
            return
        if key == 'width' and roles.widthfactor is not None:
            f = 1.0 if v[0] == 'el' else v[1]
            if abs(f - roles.widthfactor) > 1e-9:
                rep.bad('roles', name, where, 'the width of %s is %g times its width parameter, its full width at half maximum is %g times it' % (c.name, f, roles.widthfactor))
                return
        if key == 'area' and v[0] == 'scal':
            rep.skip('roles', name, 'scaled area')
            return
        rep.ok('roles', name + ' from parameter %d' % k)
    elif v[0] == 'help' and key == 'width' and v[2] in roles.helperfactor:
        if abs(v[1] - roles.helperfactor[v[2]]) > 1e-9:
            rep.bad('roles', name, where, 'the width of %s is %g times %s, its full width at half maximum is %g times it' % (c.name, v[1], v[2], roles.helperfactor[v[2]]))
        else:
            rep.ok('roles', name + ' from %s' % v[2])
    elif v[0] in ('deps', 'help'):
        v = ('deps', Fit.deps(v))
        if 'opt' in v[1]:
            rep.ok('roles', name + ' from the optimum of the model')
        elif idx in v[1]:
            rep.ok('roles', name + ' uses parameter %d' % idx)
        elif key in ('width', 'area'):
            rep.bad('roles', name, where, '%s of %s does not use the %s parameter of its model (%s)' % (key, c.name, role, params[idx]))
        else:
            rep.skip('roles', name, 'computed')
    elif v[0] == 'integral':
        if key == 'area':
            rep.ok('roles', name + ' integrates the model')
        else:
            rep.bad('roles', name, where, '%s of %s is an integral of the model' % (key, c.name))
    elif v[0] == 'model':
        rep.bad('roles', name, where, '%s of %s is a value of the model' % (key, c.name))
    else:
        rep.skip('roles', name, 'not recognised')
