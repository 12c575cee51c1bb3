"""Polynomials over program quantities for Python expressions (coefficients may be complex)."""
import ast
import math

from .csrc import Poly, num, atom
from .names import dotted
from .reach import Reach

DOTS = {'dot', 'inner', 'matmul', 'vdot', 'tensordot', 'einsum'}
PASS = {'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'transpose', 'squeeze', 'ravel', 'reshape', 'copy', 'flatten', 'real', 'float',
        'mean', 'average', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'repeat', 'tile', 'expand_dims', 'list', 'tuple', 'asfarray', 'float64'}


class Sym:
    def __init__(self, func_node, mod=None, reach=None, bind=None, depth=0):
        self.node = func_node
        self.mod = mod
        self.reach = reach or Reach(func_node)
        self.bind = bind or {}
        self.level = depth

    def helper(self, call):
        if self.mod is None or not isinstance(call.func, ast.Name):
            return None
        f = self.mod.funcs.get(call.func.id)
        d = self.reach.one(call.func)
        if d is not None and d.kind == 'other' and isinstance(d.stmt, ast.FunctionDef):
            return d.stmt
        if d is not None and d.kind == 'assign' and isinstance(d.value, ast.Lambda):
            return d.value
        return f.node if f is not None else None

    def poly(self, e, depth=0):
        """the value as a polynomial; unknown parts are atoms (their text)"""
        if depth > 30:
            return atom(ast.unparse(e))
        p = self._poly(e, depth)
        return p if p is not None else atom(ast.unparse(e))

    def _poly(self, e, depth):
        d1 = depth + 1
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float, complex)) and not isinstance(e.value, bool):
                return num(e.value)
            return None
        if isinstance(e, ast.Name):
            if e.id in self.bind and self.reach.one(e) is not None and self.reach.one(e).kind == 'param':
                return self.bind[e.id]
            d = self.reach.one(e)
            if d is not None and d.kind == 'assign':
                if d.path == ():
                    return self.poly(d.value, d1)
                v = d.value
                for i in d.path:
                    if isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts):
                        v = v.elts[i]
                    else:
                        return None
                return self.poly(v, d1)
            if e.id == 'pi':
                return num(math.pi)
            return None
        if isinstance(e, ast.Attribute):
            dn = dotted(e)
            if dn in ('np.pi', 'numpy.pi', 'math.pi', 'scipy.pi'):
                return num(math.pi)
            if e.attr in ('T', 'real') and not isinstance(e.value, ast.Name) or e.attr == 'T':
                return self.poly(e.value, d1)
            return None
        if isinstance(e, ast.UnaryOp):
            p = self.poly(e.operand, d1)
            if isinstance(e.op, ast.USub):
                return p.scale(-1)
            if isinstance(e.op, ast.UAdd):
                return p
            return None
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.MatMult)):
                a, b = self.poly(e.left, d1), self.poly(e.right, d1)
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
                if isinstance(e.op, ast.Mult):
                    return a * b
                if isinstance(e.op, ast.MatMult):
                    return a * b * atom('<dot>')
                c = b.const()
                if c:
                    return a.scale(1.0 / c)
                return a * atom('1/(%s)' % b.text())
            if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and 0 <= e.right.value <= 4:
                p = num(1)
                b = self.poly(e.left, d1)
                for _ in range(e.right.value):
                    p = p * b
                return p
            return None
        if isinstance(e, ast.Subscript):
            b = self.poly(e.value, d1)
            if len(b) == 1 and list(b.values()) == [1] and len(next(iter(b))) == 1 and not next(iter(b))[0].startswith('<'):
                return None
            return b
        if isinstance(e, ast.Call):
            name = (dotted(e.func) or '').split('.')[-1] or (e.func.attr if isinstance(e.func, ast.Attribute) else '')
            g = self.helper(e)
            if g is not None and self.level < 4:
                body = None
                if isinstance(g, ast.Lambda):
                    body = g.body
                else:
                    st = [s for s in g.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    rets = [s for s in ast.walk(g) if isinstance(s, ast.Return)]
                    if len(rets) == 1 and st and rets[0] is st[-1] and rets[0].value is not None:
                        body = rets[0].value
                ps = [x.arg for x in g.args.posonlyargs + g.args.args]
                if body is not None and not any(isinstance(a, ast.Starred) for a in e.args):
                    bind = {}
                    for p, a in list(zip(ps, e.args)) + [(k.arg, k.value) for k in e.keywords]:
                        bind[p] = self.poly(a, d1)
                    s = Sym(g, self.mod, None, bind, self.level + 1)
                    return s.poly(body, d1)
                return None
            args = e.args
            if name in DOTS and isinstance(e.func, ast.Attribute):
                ops = [a for a in args if not (isinstance(a, ast.Constant) and isinstance(a.value, str))]
                if dotted(e.func) is None or (dotted(e.func).split('.')[0] not in ('np', 'numpy', 'scipy', 'linalg')):
                    ops = [e.func.value] + ops
                if len(ops) >= 2:
                    p = atom('<dot>')
                    for o in ops[:2] if name != 'einsum' else ops:
                        p = p * self.poly(o, d1)
                    return p
            if name == 'sum' and (args or isinstance(e.func, ast.Attribute)):
                o = args[0] if args and (dotted(e.func) or '').split('.')[0] in ('np', 'numpy', 'sum') else e.func.value if isinstance(e.func, ast.Attribute) else None
                if o is not None:
                    p = self.poly(o, d1)
                    return p * atom('<dot>') if any(len([x for x in k]) >= 2 for k in p) else p
            if name in ('multiply', 'divide', 'add', 'subtract') and len(args) == 2:
                op = {'multiply': ast.Mult(), 'divide': ast.Div(), 'add': ast.Add(), 'subtract': ast.Sub()}[name]
                n = ast.BinOp(left=args[0], op=op, right=args[1])
                return self._poly(n, depth)
            if name == 'negative' and len(args) == 1:
                return self.poly(args[0], d1).scale(-1)
            if name in ('complex', 'complex128') and args:
                p = self.poly(args[0], d1)
                return p + self.poly(args[1], d1).scale(1j) if len(args) > 1 else p
            if name in ('conj', 'conjugate'):
                o = e.func.value if isinstance(e.func, ast.Attribute) and not args else args[0] if args else None
                if o is None:
                    return None
                return Poly({k: complex(v).conjugate() if isinstance(v, complex) else v for k, v in self.poly(o, d1).items()})
            if name in PASS:
                o = args[0] if args and (isinstance(e.func, ast.Name) or (dotted(e.func) or '').split('.')[0] in ('np', 'numpy')) else \
                    e.func.value if isinstance(e.func, ast.Attribute) else None
                if o is not None and not isinstance(o, (ast.List, ast.Tuple, ast.ListComp)):
                    return self.poly(o, d1)
            return None
        return None
