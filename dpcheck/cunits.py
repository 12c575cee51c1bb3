"""Inference of physical units in the C kernels (clang syntax tree), with the unifier of dpcheck.units."""
from fractions import Fraction
from math import gcd

from .csrc import c_files, callee, strip
from .units import System, U, Num, PURE, PS, THZ, same_u

KEYWORDS = {'frequency': THZ, 'frequencies': THZ, 'time_step': PS, 'timestep': PS}
SAMEC = {'creal', 'cimag', 'conj', 'cabs', 'fabs', 'PyArray_FROM_OTF', 'PyArray_DATA', 'PyArray_Return', '_Cbuild', 'fmax', 'fmin',
         'PyArray_FROM_O', 'PyArray_ContiguousFromObject', 'PyArray_BYTES', 'PyArray_GETPTR1', 'PyArray_FROMANY', 'labs', 'abs'}
EXPS = {'cexp', 'exp', 'sin', 'cos', 'cos_', 'log', 'csin', 'ccos', 'tan', 'sincos', 'clog', 'sinh', 'cosh'}
CIRC = {'cexp', 'sin', 'cos', 'csin', 'ccos', 'tan', 'sincos'}
ROUND = {'round', 'rint', 'floor', 'ceil', 'nearbyint', 'lround', 'trunc'}


class Cell:
    """unit, and the value as a polynomial of pi, the frequency, the time step and integers (or None)"""

    def __init__(self, u, p=None):
        self.u, self.p = u, p


def pmul(a, b, s=1):
    if a is None or b is None:
        return None
    if s < 0 and len(b) != 1:
        return None
    out = {}
    for m, x in a.items():
        for k, y in b.items():
            d = dict(m)
            for v, e in k:
                d[v] = d.get(v, 0) + s * e
            key = tuple(sorted((v, e) for v, e in d.items() if e))
            out[key] = out.get(key, 0) + (x * y if s > 0 else x / y)
    return {m: x for m, x in out.items() if x}


def padd(a, b, s=1):
    if a is None or b is None:
        return None
    out = dict(a)
    for m, x in b.items():
        out[m] = out.get(m, 0) + s * x
    return {m: x for m, x in out.items() if x}


def turns(p):
    """how many turns a frequency makes in the time the phase is about: the phase / (2 pi frequency time step) as a number
    times a primitive polynomial of integers; None when the phase is not of this form"""
    if not p:
        return None
    co = []
    for m, x in p.items():
        d = dict(m)
        if any(d.pop(k, 0) != 1 for k in ('pi', 'f', 'dt')) or any(e < 0 for e in d.values()):
            return None
        co.append(x)
    g = co[0]
    for x in co[1:]:
        g = Fraction(gcd(g.numerator * x.denominator, x.numerator * g.denominator), g.denominator * x.denominator)
    return abs(g) / 2


class CUnits:
    def __init__(self, cf):
        self.cf = cf
        self.sys = System()
        self.problems = []
        self.decided = {}
        self.stack = []
        self.env = {}
        self.rets = []
        self.fn = None
        self.params = {}
        self.names = {}      # decl id -> keyword list of names

    def fresh(self):
        return self.sys.fresh()

    def ok(self, rule, n):
        self.decided.setdefault(rule, set()).add('%s:%s line %s' % (self.cf.rel, self.fn.name, n.line))

    def bad(self, rule, n, text):
        if not any(k in self.recursive for k in self.stack):
            self.problems.append((rule, self.cf, self.fn, n, text))

    recursive = frozenset()
    cond = 0

    # ---- one function that Python calls
    def root(self, f, velocity):
        self.velocity = velocity
        self.recursive = recursive(self.cf)
        return self.run(f, None)

    def run(self, f, args):
        save = self.env, self.rets, self.fn
        self.env, self.rets, self.fn = dict(self.globals()), [], f
        self.stack.append(f.name)
        for p, a in zip(self.cf.params(f), args or []):
            self.env[p.id] = a if pointer(p.type) else Cell(a.u, None if integer(p.type) else a.p)
        try:
            self.block(self.cf.body(f))
            rets = [r for r in self.rets if not isinstance(r.u, Num)]
        finally:
            self.env, self.rets, self.fn = save
            self.stack.pop()
        if not rets:
            return None
        u = self.sys.norm(rets[0].u)
        if all(same_u(u, self.sys.norm(r.u)) for r in rets[1:]):
            return rets[0]
        return None

    def globals(self):
        return {}

    def block(self, n):
        for k in n.kids:
            self.stmt(k)

    def stmt(self, n):
        k = n.kind or 'NullStmt'
        if k == 'DeclStmt':
            for d in n.kids:
                if d.kind == 'VarDecl':
                    self.decl(d)
        elif k == 'ReturnStmt':
            if n.kids:
                v = self.ev(n.kids[0])
                self.rets.append(v)
        elif k == 'IfStmt':
            self.ev(n.kids[0])
            for b in n.kids[1:]:
                keep = dict(self.sys.sub)
                self.cond += 1
                self.stmt(b)
                self.cond -= 1
                if not self.useful(keep):
                    self.sys.sub = keep
        elif k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CompoundStmt', 'SwitchStmt', 'CaseStmt', 'DefaultStmt', 'LabelStmt',
                   'AttributedStmt', 'CapturedStmt', 'CapturedDecl') or k.startswith('OMP'):
            for c in n.kids:
                self.stmt(c)
        elif k in ('BreakStmt', 'ContinueStmt', 'GotoStmt', 'NullStmt'):
            pass
        elif k.endswith('Decl') or k.endswith('Attr') or k == 'OMPPrivateClause':
            pass
        else:
            self.ev(n)

    def useful(self, keep):
        return True

    def decl(self, d):
        init = [x for x in d.kids if not x.kind.endswith('Attr')]
        if 'kwlist' in (d.name or '') or 'char *[' in d.type:
            ws = [s.value.strip('"') for s in d.walk() if s.kind == 'StringLiteral' and s.value]
            self.names[d.id] = ws
            self.env[d.id] = Cell(self.fresh())
            return
        if not init:
            self.env[d.id] = Cell(PURE if integer(d.type) else self.fresh())
            return
        v = self.ev(init[-1])
        self.env[d.id] = v if pointer(d.type) else Cell(v.u if not isinstance(v.u, Num) or not integer(d.type) else PURE, v.p)
        if integer(d.type):
            self.env[d.id] = Cell(PURE)

    def num(self, c):
        return c.u

    # ---- expressions: a Cell
    def ev(self, n):
        raw = n
        n = strip(n)
        if n is None:
            return Cell(self.fresh())
        k = n.kind or 'NullStmt'
        if k == 'FloatingLiteral':
            v = float(n.value)
            for m in (1, 2):
                if abs(v / 3.141592653589793 / m - 1) < 1e-9:
                    return Cell(U({}, {}, -1), {(('pi', 1),): Fraction(m)})
            return Cell(Num(v, 0), {(): Fraction(n.value)} if v else {})
        if k in ('IntegerLiteral', 'CharacterLiteral', 'UnaryExprOrTypeTraitExpr', 'SizeOfExpr'):
            return Cell(Num(1, 0), ({(): Fraction(int(n.value))} if int(n.value) else {}) if k == 'IntegerLiteral' else None)
        if k == 'DeclRefExpr':
            i = n.ref[0] if n.ref else None
            if i not in self.env:
                self.env[i] = Cell(PURE if integer(n.type) else self.fresh())
            if integer(n.type):
                self.env[i].p = {((i, 1),): Fraction(1)}
            return self.env[i]
        if k == 'ArraySubscriptExpr':
            b = self.ev(n.kids[0])
            self.ev(n.kids[1])
            u = self.sys.norm(b.u)
            b.p = {(('f', 1),): Fraction(1)} if u.cyc == 1 and u.d == THZ.d and not u.v else None
            return b
        if k == 'UnaryOperator':
            v = self.ev(n.kids[0])
            if n.op in ('!',):
                return Cell(PURE)
            if n.op in ('*', '&', '++', '--'):
                return v
            return Cell(v.u, pmul(v.p, {(): Fraction(-1 if n.op == '-' else 1)}) if n.op in '+-' else None)
        if k == 'MemberExpr':
            self.ev(n.kids[0]) if n.kids else None
            return Cell(self.fresh())
        if k == 'ConditionalOperator':
            self.ev(n.kids[0])
            a, b = self.ev(n.kids[1]), self.ev(n.kids[2])
            if isinstance(a.u, Num):
                return b
            return a if isinstance(b.u, Num) or same_u(self.sys.norm(a.u), self.sys.norm(b.u)) else Cell(self.fresh())
        if k == 'BinaryOperator':
            return self.binary(n)
        if k == 'CompoundAssignOperator':
            a, b = self.ev(n.kids[0]), self.ev(n.kids[1])
            a.p = pmul(a.p, b.p, 1 if n.op == '*=' else -1) if n.op in ('*=', '/=') and not self.cond and not integer(n.kids[0].type) else None
            if n.op in ('+=', '-='):
                self.add(a, b, n)
            elif n.op in ('*=', '/='):
                if not isinstance(b.u, Num):
                    a.u = self.sys.mul(self.pure(a), b.u, 1 if n.op == '*=' else -1)
            return a
        if k == 'CallExpr':
            return self.call(n)
        if k in ('InitListExpr', 'ImplicitValueInitExpr'):
            for c in n.kids:
                self.ev(c)
            return Cell(self.fresh())
        if k == 'ImaginaryLiteral':
            return Cell(Num(1, 0), {(): Fraction(1)})
        for c in n.kids:
            self.stmt(c) if c.kind.endswith('Stmt') else self.ev(c)
        return Cell(self.fresh())

    def pure(self, c):
        return PURE if isinstance(c.u, Num) else c.u

    def add(self, a, b, n):
        if isinstance(a.u, Num) and isinstance(b.u, Num):
            return Cell(Num(1, 0))
        if isinstance(a.u, Num) or isinstance(b.u, Num):
            u = self.sys.norm(b.u if isinstance(a.u, Num) else a.u)
            if n.kind == 'CompoundAssignOperator' and isinstance(a.u, Num):
                a.u = u
            return Cell(U(u.d, u.v, None))
        ka, kb = self.sys.known(a.u), self.sys.known(b.u)
        if not self.sys.unify(a.u, b.u):
            self.bad('sum', n, 'combines %s with %s' % (self.sys.show(a.u), self.sys.show(b.u)))
            return Cell(self.fresh())
        if ka and kb:
            self.ok('sum', n)
        u = self.sys.norm(a.u)
        return Cell(U(u.d, u.v, u.cyc if u.cyc == self.sys.norm(b.u).cyc else None))

    def binary(self, n):
        op = n.op
        a, b = self.ev(n.kids[0]), self.ev(n.kids[1])
        if op == '=':
            t = strip(n.kids[0])
            if t.kind == 'DeclRefExpr' and not pointer(t.type):
                a.p = b.p if not self.cond or a.p == b.p else None
            if t.kind == 'DeclRefExpr' and pointer(t.type):
                self.env[t.ref[0]] = b
                return b
            if integer(t.type):
                a.u = PURE if t.kind == 'DeclRefExpr' else a.u
                return a
            if isinstance(b.u, Num):
                if t.kind == 'DeclRefExpr':
                    a.u = self.fresh()        # a number written as such takes any unit
                return a
            if t.kind == 'DeclRefExpr':
                a.u = self.sys.norm(b.u)
            elif not self.sys.unify(a.u, b.u):
                a.u = self.fresh()
            elif isinstance(a.u, Num):
                a.u = b.u
            return a
        if op in ('+', '-'):
            if pointer(n.kids[0].type) or pointer(n.type):
                return a
            p = padd(a.p, b.p, 1 if op == '+' else -1)
            c = self.add(a, b, n)
            return Cell(c.u, p)
        if op in ('*', '/'):
            p = pmul(a.p, b.p, 1 if op == '*' else -1)
            if op == '/' and integer(n.kids[0].type) and integer(n.kids[1].type):
                p = None
            if isinstance(a.u, Num) and isinstance(b.u, Num):
                return Cell(Num(1, 0), p)
            return Cell(self.sys.mul(a.u, b.u, 1 if op == '*' else -1), p)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if not isinstance(a.u, Num) and not isinstance(b.u, Num) and not pointer(n.kids[0].type):
                self.add(a, b, n)
            return Cell(PURE)
        if op == ',':
            return b
        return Cell(PURE)

    def call(self, n):
        name = callee(n)
        args = n.kids[1:]
        if name and name.startswith('PyArg_Parse'):
            ws = None
            for a in args:
                s = strip(a)
                if s.kind == 'DeclRefExpr' and s.ref and s.ref[0] in self.names:
                    ws = self.names[s.ref[0]]
            outs = [strip(a) for a in args]
            outs = [o.kids[0] for o in outs if o.kind == 'UnaryOperator' and o.op == '&']
            self.bound = {}
            if ws:
                for w, o in zip(ws, outs):
                    o = strip(o)
                    u = KEYWORDS.get(w.lower())
                    if w.lower() == 'velocity':
                        u = self.velocity
                    if o.kind == 'DeclRefExpr':
                        self.env[o.ref[0]] = Cell(u if u is not None else PURE if integer(o.type) else self.fresh(),
                                                  {(('dt', 1),): Fraction(1)} if u is PS else None)
            return Cell(PURE)
        vs = [self.ev(a) for a in args]
        if name is None:
            from .cmach import API
            x = strip(n.kids[0])
            while x is not None and x.kind in ('UnaryOperator',) and x.kids:
                x = strip(x.kids[0])
            if x is not None and x.kind == 'ArraySubscriptExpr':
                k = strip(x.kids[1])
                if k.kind == 'IntegerLiteral' and API.get(int(k.value)) in ('FromAny', 'Return', 'NewCopy') and vs:
                    return vs[0]
        if name and name.startswith('PyErr_'):
            return Cell(Num(0, 0))
        if name in ('PyArray_DIM', 'PyArray_DIMS', 'PyArray_NDIM', 'PyArray_SIZE'):
            return Cell(PURE)
        if name == '_Cbuild' and len(vs) == 2:
            if isinstance(vs[0].u, Num):
                return Cell(vs[1].u, vs[1].p)
            if isinstance(vs[1].u, Num):
                return Cell(vs[0].u, vs[0].p)
            return self.add(vs[0], vs[1], n)
        if name in SAMEC and vs:
            return vs[0] if name.startswith('PyArray') else Cell(vs[0].u)
        if name in ('_Cmulcc', '_Cmulcr', 'fma') and len(vs) >= 2:
            if isinstance(vs[0].u, Num) and isinstance(vs[1].u, Num):
                return Cell(Num(1, 0), pmul(vs[0].p, vs[1].p))
            return Cell(self.sys.mul(vs[0].u, vs[1].u), pmul(vs[0].p, vs[1].p))
        if name in ('pow', 'cpow') and len(vs) == 2:
            e = strip(args[1])
            if e.kind in ('IntegerLiteral', 'FloatingLiteral'):
                return Cell(vs[0].u if isinstance(vs[0].u, Num) else self.sys.pow(vs[0].u, Fraction(e.value).limit_denominator(16)))
            u = self.sys.norm(vs[0].u)
            return Cell(PURE if not u.d and not u.v else self.fresh())
        if name in ('sqrt', 'csqrt') and vs:
            return Cell(vs[0].u if isinstance(vs[0].u, Num) else self.sys.pow(vs[0].u, Fraction(1, 2)))
        if name in EXPS and vs:
            u = self.sys.norm(vs[0].u)
            if not isinstance(vs[0].u, Num) and not u.v:
                if u.d:
                    self.bad('pure', n, 'the argument of %s is in %s, not a pure number' % (name, self.sys.show(u)))
                else:
                    self.ok('pure', n)
                    if name in CIRC and u.cyc is not None:
                        if u.cyc in (1, -1):
                            self.bad('phase', n, 'the phase is a frequency times a time %s' % (
                                'without the factor 2 pi' if u.cyc > 0 else 'with the factor 2 pi twice'))
                        else:
                            t = turns(vs[0].p)
                            if t is not None and t != 1:
                                self.bad('phase', n, 'the phase is %s times 2 pi frequency time' % t)
                            else:
                                self.ok('phase', n)
            return Cell(U({}, {}, 0))
        if name in ROUND and vs:
            return Cell(vs[0].u)
        f = self.cf.funcs.get(name)
        if f is not None and name not in self.stack and name not in self.recursive:
            r = self.run(f, vs)
            if r is not None:
                return r
        return Cell(self.fresh())


def recursive(cf):
    calls = {f: {callee(n) for n in node.walk() if n.kind == 'CallExpr'} & set(cf.funcs) for f, node in cf.funcs.items()}
    out = set()
    for f in calls:
        seen, todo = set(), list(calls[f])
        while todo:
            g = todo.pop()
            if g not in seen:
                seen.add(g)
                todo += calls[g]
        if f in seen:
            out.add(f)
    return frozenset(out)


def pointer(t):
    return '*' in t or '[' in t


def integer(t):
    t = t.replace('const ', '').strip()
    return not pointer(t) and t in ('int', 'long', 'unsigned int', 'npy_intp', 'size_t', 'long long', 'short', 'unsigned long',
                                    'Py_ssize_t', 'char', 'unsigned char', '_Bool', 'Py_intptr_t')


def analyse():
    """[(file, function, CUnits, result unit, expected or None)]"""
    from .cmach import extension_functions
    out = []
    for cf in c_files():
        if not cf.ok:
            out.append((cf, None, None, None, None))
            continue
        for f, flags in extension_functions(cf):
            A = CUnits(cf)
            V = A.fresh()
            kw = {s.value.strip('"').lower() for s in f.walk() if s.kind == 'StringLiteral' and s.value}
            r = A.root(f, V)
            spectrum = 'velocity' in kw and bool(kw & {'time_step', 'timestep'}) and 'frequency' in kw
            want = A.sys.mul(A.sys.pow(V, 2), PS) if spectrum else None
            out.append((cf, f, A, r, want))
    return out
