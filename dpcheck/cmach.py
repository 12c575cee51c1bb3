"""Abstract execution of the C kernels: every path of every function that Python can reach, with integers as polynomials over the
inputs, pointers as (buffer, offset), one generic turn per loop, and the state of every buffer and array reference.

What it reports goes to sink(kind, node, key, text); what it cannot follow goes to unsure(kind, node, text)."""
from fractions import Fraction

from .csrc import Poly, num, atom, strip, callee, text
from .lin import entails, contradictory, witness, atoms, subst, degree

NPY = {'NPY_BOOL': (0, 1), 'NPY_BYTE': (1, 1), 'NPY_UBYTE': (2, 1), 'NPY_SHORT': (3, 2), 'NPY_USHORT': (4, 2), 'NPY_INT': (5, 4),
       'NPY_UINT': (6, 4), 'NPY_LONG': (7, 8), 'NPY_ULONG': (8, 8), 'NPY_LONGLONG': (9, 8), 'NPY_ULONGLONG': (10, 8),
       'NPY_FLOAT': (11, 4), 'NPY_DOUBLE': (12, 8), 'NPY_LONGDOUBLE': (13, 16), 'NPY_CFLOAT': (14, 8), 'NPY_CDOUBLE': (15, 16)}
ITEM = {i: s for i, s in NPY.values()}
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
         'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'long double': 16, '_Complex double': 16,
         'double _Complex': 16, '_Dcomplex': 16, 'double complex': 16, '_Complex float': 8, 'float _Complex': 8, 'npy_intp': 8, 'Py_ssize_t': 8, 'size_t': 8,
         'ssize_t': 8, 'npy_double': 8, 'npy_cdouble': 16, 'npy_int': 4, 'bool': 1, '_Bool': 1, 'Py_intptr_t': 8}
INTS = {'char', 'signed char', 'unsigned char', 'short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long',
        'unsigned long long', 'npy_intp', 'Py_ssize_t', 'size_t', 'ssize_t', 'npy_int', 'bool', '_Bool', 'Py_intptr_t', 'unsigned short'}
UNSIGNED = {'size_t', 'unsigned long', 'unsigned int', 'unsigned long long', 'unsigned char', 'unsigned short'}
FORMAT = {'i': {'int'}, 'd': {'double'}, 'f': {'float'}, 'l': {'long'}, 'O': {'PyObject *', 'PyArrayObject *'}, 'n': {'Py_ssize_t', 'long'},
          'p': {'int'}, 'L': {'long long'}, 'I': {'unsigned int'}, 'k': {'unsigned long'}, 's': {'char *', 'const char *'}}
API = {45: 'DescrFromType', 69: 'FromAny', 76: 'Return', 93: 'New', 94: 'NewFromDescr', 183: 'Zeros', 184: 'Empty', 85: 'NewCopy'}
PURE = {'pow', 'cpow', 'cexp', 'exp', 'sin', 'cos', 'tan', 'sqrt', 'fabs', 'round', 'floor', 'ceil', 'creal', 'cimag', 'conj', 'cabs',
        'log', 'carg', 'fmin', 'fmax', 'isnan', 'isinf', 'isfinite', 'lround', 'rint', 'trunc', 'fmod', 'csqrt', 'clog', 'cosh', 'sinh',
        'tanh', 'omp_get_wtime', 'omp_get_max_threads', 'omp_get_thread_num', 'omp_set_num_threads', 'printf', 'fprintf', 'abs', 'labs',
        'atan2', 'hypot', 'lrint', 'llround', 'ccos', 'csin', 'PyErr_Occurred', 'PyErr_Clear', 'fflush', 'puts', 'memcpy', 'memset', 'exp2'}
FLT = ('float',)
UNK = ('unknown',)
NULL = ('null',)


def fix(p):
    return p


def base(t):
    t = t.replace('const ', '').replace('volatile ', '').replace('restrict', '').replace('static ', '').strip()
    return t


def pointee(t):
    t = base(t)
    if t.endswith('*'):
        return base(t[:-1])
    if t.endswith(']') and '[' in t:
        i = t.index('[')
        j = t.index(']', i)
        return base((t[:i] + t[j + 1:]).strip())
    return None


def is_ptr(t):
    t = base(t)
    return t.endswith('*') or t.endswith(']') or t in ('PyObjectPtr',)


def sizeof(t):
    t = base(t)
    if t.endswith('*'):
        return 8
    if t.endswith(']') and '[' in t:
        i = t.index('[')
        j = t.index(']', i)
        try:
            n = int(t[i + 1:j])
        except ValueError:
            return None
        s = sizeof(t[:i] + t[j + 1:])
        return None if s is None else n * s
    return SIZES.get(t)


class Ptr:
    """address: byte offset in a buffer; idx: which one of a family of buffers (one per element of a pointer array)"""
    __slots__ = ('obj', 'off', 'idx', 'data')

    def __init__(self, obj, off=None, idx=None, data=False):
        self.obj, self.off, self.idx, self.data = obj, off if off is not None else num(0), idx, data

    def add(self, p):
        return Ptr(self.obj, self.off + p, self.idx, self.data)

    def __repr__(self):
        return 'Ptr(%s+%s%s)' % (self.obj, self.off.text(), '' if self.idx is None else '#' + self.idx.text())


class Obj:
    """what does not change about a buffer"""

    def __init__(self, oid, kind, node, func, size=None):
        self.id, self.kind, self.node, self.func, self.size = oid, kind, node, func, size
        self.name = None            # variable it was first stored in
        self.dims = None            # arrays: extents
        self.ndim = None
        self.dtype = None
        self.flags = None
        self.index = None           # families: the atom that stands for the index
        self.elems = None           # local arrays with an initialiser


class Rec:
    """what changes"""
    __slots__ = ('status', 'rows', 'freed', 'exc')

    def __init__(self, status, rows=(), freed=()):
        self.status, self.rows, self.freed = status, tuple(rows), tuple(freed)

    def copy(self, **k):
        r = Rec(self.status, self.rows, self.freed)
        for a, v in k.items():
            setattr(r, a, v)
        return r


class State:
    __slots__ = ('env', 'facts', 'sub', 'heap', 'exc', 'mode', 'val', 'ints', 'frees', 'skips')

    def __init__(self):
        self.env, self.facts, self.sub, self.heap = {}, [], [], {}
        self.exc, self.mode, self.val = False, 'run', None
        self.ints = ()       # integer conditions decided (nodes)
        self.frees = ()      # rows released in this turn
        self.skips = ()      # (name, limit) of equality conditions taken

    def copy(self):
        s = State()
        s.env, s.facts, s.sub, s.heap = dict(self.env), list(self.facts), list(self.sub), dict(self.heap)
        s.exc, s.mode, s.val, s.ints, s.frees, s.skips = self.exc, self.mode, self.val, self.ints, self.frees, self.skips
        return s

    def norm(self, p):
        for a, q in self.sub:
            p = subst(p, a, q)
        return p

    def know(self, p):
        p = self.norm(p)
        c = p.const()
        if (c is None or c < 0) and p not in self.facts:
            self.facts.append(p)

    def equal(self, p):
        """p == 0"""
        p = self.norm(p)
        if p.const() is not None:
            if p.const() != 0:
                self.facts.append(num(-1))
            return
        for k, v in sorted(p.items(), reverse=True):
            if len(k) == 1 and v in (1, -1) and not any(k[0] in m for m in p if m != k):
                rest = Poly({m: c for m, c in p.items() if m != k}).scale(-v)
                self.sub.append((k[0], rest))
                old, self.facts = self.facts, []
                for f in old:
                    self.know(subst(f, k[0], rest))
                return
        self.know(p)
        self.know(p.scale(-1))


class TooMany(Exception):
    pass


class Machine:
    def __init__(self, cf, sink, unsure, done):
        self.cf, self.sink, self.unsure, self.done = cf, sink, unsure, done
        self.objs = {}
        self.mute = 0
        self.guess = 0
        self.n = 0
        self.vague = set()
        self.stack = []
        self.recursive = self.find_recursive()
        self.summarised = {}
        self.calls_rec = []
        self.steps = 0

    # -- helpers ---------------------------------------------------------------
    def fresh(self, name, vague=False):
        self.n += 1
        a = '%s@%d' % (name, self.n)
        if vague:
            self.vague.add(a)
        return a

    def new(self, st, kind, node, size=None, status='maybe', func=None):
        self.n += 1
        o = Obj('o%d' % self.n, kind, node, func or (self.stack[-1] if self.stack else None), size)
        self.objs[o.id] = o
        st.heap[o.id] = Rec(status)
        return o

    def fn(self):
        return self.stack[-1].name if self.stack else '?'

    def report(self, kind, node, key, txt):
        if not self.mute:
            self.sink(kind, node, '%s:%s:%s' % (self.cf.rel, self.fn(), key), txt)

    def doubt(self, kind, node, txt):
        if not self.mute:
            self.unsure(kind, node, '%s:%s: %s' % (self.cf.rel, self.fn(), txt))

    def good(self, kind, node, txt):
        if not self.mute:
            self.done(kind, node, '%s:%s: %s' % (self.cf.rel, self.fn(), txt))

    def reach(self, f, seen):
        for n in f.walk():
            if n.kind == 'DeclRefExpr' and n.ref and n.ref[2] == 'FunctionDecl' and n.ref[1] in self.cf.funcs and n.ref[1] not in seen:
                seen.add(n.ref[1])
                self.reach(self.cf.funcs[n.ref[1]], seen)
        return seen

    def find_recursive(self):
        return {n for n, f in self.cf.funcs.items() if n in self.reach(f, set())}

    def check(self, st, kind, node, goal, key, txt):
        """goal >= 0 has to hold here"""
        if self.mute:
            return
        goal = st.norm(goal)
        facts = [st.norm(f) for f in st.facts]
        if entails(facts, goal):
            self.good(kind, node, '%s' % txt)
            return
        if contradictory(facts):
            return
        w = witness(facts, goal, self.vague)
        if w is not None:
            names = sorted(a for a in w)
            self.report(kind, node, key, '%s: not so for %s' % (txt, ', '.join('%s=%d' % (a.split('@')[0], w[a]) for a in names)))
        else:
            self.doubt(kind, node, txt)

    def feasible(self, st):
        return not contradictory(st.facts)

    def prune(self, sts):
        out = []
        for s in sts:
            # the last fact decides whether the path is possible
            if s.facts and contradictory(s.facts):
                continue
            out.append(s)
        if len(out) > 1:
            out = self.join(None, out)
        if len(out) > 600:
            raise TooMany()
        return out

    # -- conditions -------------------------------------------------------------
    def cond(self, n, st):
        """[(truth, state)]"""
        n = strip(n)
        if n.kind == 'UnaryOperator' and n.op == '!':
            return [(not t, s) for t, s in self.cond(n.kids[0], st)]
        if n.kind == 'BinaryOperator' and n.op in ('&&', '||'):
            out = []
            for t, s in self.cond(n.kids[0], st):
                if t == (n.op == '||'):
                    out.append((t, s))
                else:
                    out += self.cond(n.kids[1], s)
            return out
        if n.kind == 'CallExpr' and callee(n) == '__builtin_expect':
            return self.cond(n.kids[1], st)
        if n.kind == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=', '==', '!='):
            out = []
            for s, a in self.ev(n.kids[0], st):
                for s2, b in self.ev(n.kids[1], s):
                    out += self.compare(n, n.op, a, b, s2)
            return out
        out = []
        for s, v in self.ev(n, st):
            if isinstance(v, (Ptr, tuple)) and (isinstance(v, Ptr) or v in (NULL,)):
                out += self.compare(n, '!=', v, NULL, s)
            elif isinstance(v, Poly):
                out += self.compare(n, '!=', v, num(0), s)
            else:
                out += [(True, s.copy()), (False, s)]
        return out

    def compare(self, n, op, a, b, st):
        if isinstance(a, Ptr) and isinstance(b, Poly) and b.const() == 0:
            b = NULL
        if isinstance(b, Ptr) and isinstance(a, Poly) and a.const() == 0:
            a = NULL
        if op in ('==', '!='):
            if a == NULL and isinstance(b, Ptr):
                a, b = b, a
            if isinstance(a, Ptr) and b == NULL:
                r = st.heap.get(a.obj)
                out = []
                if r is None:
                    return [(True, st.copy()), (False, st)]
                if r.status == 'null':
                    return [(op == '==', st)]
                if r.status in ('maybe', 'borrow?'):
                    s = st.copy()
                    s.heap[a.obj] = r.copy(status='null')
                    if self.objs[a.obj].kind == 'array':
                        s.exc = True
                    out.append((op == '==', s))
                    st = st.copy()
                    st.heap[a.obj] = r.copy(status='held' if r.status == 'maybe' else 'borrowed')
                    out.append((op != '==', st))
                    return out
                return [(op != '==', st)]
            if a == NULL and b in (NULL,) or (a == NULL and isinstance(b, Poly) and b.const() == 0) or (b == NULL and isinstance(a, Poly) and a.const() == 0):
                return [(op == '==', st)]
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = st.norm(b - a)            # b - a
            one = num(1)
            out = []

            def branch(truth, facts=(), eq=None):
                s = st.copy()
                s.ints = s.ints + ((n.id, frozenset(atoms(d))),)
                for f in facts:
                    s.know(f)
                if eq is not None:
                    s.equal(eq)
                    s.skips = s.skips + ((n.id, d),)
                out.append((truth, s))
            c = d.const()
            if c is not None:
                t = {'<': c > 0, '>': c < 0, '<=': c >= 0, '>=': c <= 0, '==': c == 0, '!=': c != 0}[op]
                return [(t, st)]
            if op == '<':
                branch(True, [d - one]); branch(False, [d.scale(-1)])
            elif op == '>':
                branch(True, [d.scale(-1) - one]); branch(False, [d])
            elif op == '<=':
                branch(True, [d]); branch(False, [d.scale(-1) - one])
            elif op == '>=':
                branch(True, [d.scale(-1)]); branch(False, [d - one])
            else:
                branch(op == '==', eq=d)
                branch(op != '==', [d - one])
                branch(op != '==', [d.scale(-1) - one])
            keep = [(t, s) for t, s in out if not contradictory(s.facts)]
            return keep
        return [(True, st.copy()), (False, st)]

    # -- expressions --------------------------------------------------------------
    def evs(self, ns, st):
        """[(state, [values])]"""
        out = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
            if len(out) > 600:
                raise TooMany()
        return out

    def ev(self, n, st):
        self.steps += 1
        if self.steps > 4000000:
            raise TooMany()
        if n.kind in ('ImplicitCastExpr', 'CStyleCastExpr'):
            k = n.kids[-1]
            if n.raw.get('castKind') == 'NullToPointer':
                return [(st, NULL)]
            if n.raw.get('castKind') in ('IntegralToFloating',):
                return [(s, FLT) for s, v in self.ev(k, st)]
            if n.raw.get('castKind') == 'FloatingToIntegral':
                return [(s, atom(self.fresh('trunc', True))) for s, v in self.ev(k, st)]
            return self.ev(k, st)
        if n.kind in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups'):
            return self.ev(n.kids[-1], st)
        m = getattr(self, 'e_' + n.kind, None)
        if m is not None:
            return m(n, st)
        return [(s, UNK) for s, _ in self.evs([k for k in n.kids if is_expr(k)], st)]

    def e_IntegerLiteral(self, n, st):
        return [(st, num(int(n.value)))]

    def e_FloatingLiteral(self, n, st):
        return [(st, FLT)]

    def e_ImaginaryLiteral(self, n, st):
        return [(st, FLT)]

    def e_StringLiteral(self, n, st):
        return [(st, UNK)]

    def e_CharacterLiteral(self, n, st):
        return [(st, num(int(n.value)))]

    def e_DeclRefExpr(self, n, st):
        if n.ref and n.ref[2] == 'EnumConstantDecl':
            if n.ref[1] in NPY:
                return [(st, num(NPY[n.ref[1]][0]))]
            return [(st, atom('enum:' + n.ref[1]))]
        v = st.env.get(n.ref[0]) if n.ref else None
        if isinstance(v, Poly):
            v = st.norm(v)
        if v is None and n.ref and n.ref[2] == 'VarDecl' and base(n.type) in INTS:
            v = atom(self.fresh(n.ref[1], True))
        return [(st, UNK if v is None else v)]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        t = (n.raw.get('argType') or {}).get('qualType')
        if t is None and n.kids:
            t = strip(n.kids[0]).type if n.kids[0].kind != 'ParenExpr' else n.kids[0].type
        s = sizeof(t) if t else None
        return [(st, num(s) if s else UNK)]

    def e_ConditionalOperator(self, n, st):
        out = []
        for t, s in self.cond(n.kids[0], st):
            out += self.ev(n.kids[1] if t else n.kids[2], s)
        return out

    def e_UnaryOperator(self, n, st):
        k = n.kids[0]
        if n.op in ('++', '--'):
            d = num(1 if n.op == '++' else -1)
            out = []
            for s, v in self.ev(k, st):
                nv = v
                if isinstance(v, Poly):
                    nv = v + d
                elif isinstance(v, Ptr):
                    nv = v.add(d.scale(sizeof(pointee(strip(k).type) or '') or 1))
                s = self.assign(k, nv, s)
                out.append((s, v if n.raw.get('isPostfix') else nv))
            return out
        if n.op == '&':
            return [(s, UNK) for s, _ in self.lval(k, st)]
        if n.op == '*':
            return self.load(n, st)
        out = []
        for s, v in self.ev(k, st):
            if n.op == '-' and isinstance(v, Poly):
                v = v.scale(-1)
            elif n.op in ('+', '__extension__'):
                pass
            elif n.op == '!':
                v = atom(self.fresh('not', True)) if v is not FLT else FLT
            elif n.op == '-' and v == FLT:
                v = FLT
            else:
                v = UNK
            out.append((s, v))
        return out

    def e_BinaryOperator(self, n, st):
        if n.op == '=':
            out = []
            for s, v in self.ev(n.kids[1], st):
                for s2 in self.store(n.kids[0], v, s):
                    out.append((s2, v))
            return out
        if n.op == ',':
            return [(s, vs[-1]) for s, vs in self.evs(n.kids, st)]
        if n.op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            return [(s, num(1 if t else 0)) for t, s in self.cond(n, st)]
        out = []
        for s, (a, b) in self.evs(n.kids, st):
            out.append((s, self.arith(n, n.op, a, b, s)))
        return out

    def e_CompoundAssignOperator(self, n, st):
        out = []
        for s, b in self.ev(n.kids[1], st):
            for s2, a in self.ev(n.kids[0], s):
                v = self.arith(n, n.op[:-1], a, b, s2)
                for s3 in self.store(n.kids[0], v, s2, quiet=True):
                    out.append((s3, v))
        return out

    def arith(self, n, op, a, b, st):
        if op == '/' and not is_ptr(n.type):
            self.divisor(n, n.kids[1], b, st)
        if op == '%':
            self.divisor(n, n.kids[1], b, st)
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in ('+', '-'):
            w = sizeof(pointee(strip(n.kids[0]).type) or pointee(n.type) or '')
            return a.add(b.scale(w if op == '+' else -w)) if w else UNK
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == '+':
            w = sizeof(pointee(strip(n.kids[1]).type) or pointee(n.type) or '')
            return b.add(a.scale(w)) if w else UNK
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            ca, cb = a.const(), b.const()
            if op == '/' and cb and cb == 1:
                return a
            if ca is not None and cb is not None and all(float(x).is_integer() for x in (ca, cb)):
                ca, cb = int(ca), int(cb)
                if op == '&':
                    return num(ca & cb)
                if op == '|':
                    return num(ca | cb)
                if op == '^':
                    return num(ca ^ cb)
                if op == '<<' and cb >= 0:
                    return num(ca << cb)
                if op == '>>' and cb >= 0:
                    return num(ca >> cb)
                if op == '/' and cb:
                    return num(int(Fraction(ca, cb)))
                if op == '%' and cb:
                    return num(ca - cb * int(Fraction(ca, cb)))
            if op in ('/', '%') and base(n.type) in INTS:
                q = self.fresh('quotient')
                facts = [st.norm(f) for f in st.facts]
                if entails(facts, st.norm(a)) and entails(facts, st.norm(b) - num(1)):
                    qa = atom(q)
                    st.know(qa)
                    st.know(a - qa * b)
                    st.know(b - num(1) - (a - qa * b))
                    return qa if op == '/' else a - qa * b
                self.vague.add(q)
                return atom(q)
        if FLT in (a, b):
            return FLT
        if base(n.type) in INTS:
            return atom(self.fresh('value', True))
        return UNK

    def divisor(self, n, e, v, st):
        """integers are never divided by zero, nor floating values by an integer quantity that is zero"""
        k = e
        if not isinstance(v, Poly):
            x = strip(e)
            if x is not None and base(x.type) in INTS:
                m = self.mute
                self.mute += 1
                r = self.ev(x, st.copy())
                self.mute = m
                if len(r) == 1 and isinstance(r[0][1], Poly):
                    v, st = r[0][1], r[0][0]
        if not isinstance(v, Poly) or self.mute:
            return
        v = st.norm(v)
        facts = [st.norm(f) for f in st.facts]
        txt = 'divisor %s is not zero' % text(k)
        if entails(facts, v - num(1)) or entails(facts, v.scale(-1) - num(1)):
            self.good('divisor', n, txt)
            return
        if v.const() is not None and v.const() != 0:
            self.good('divisor', n, txt)
            return
        if contradictory(facts):
            return
        w = witness(facts + [v, v.scale(-1)], num(-1) if v.const() is not None else (v - num(1)), self.vague)
        if w is not None:
            self.report('divisor', n, 'divisor ' + text(k), '%s: it is for %s' % (txt, ', '.join('%s=%d' % (a.split('@')[0], w[a]) for a in sorted(w))))
        else:
            self.doubt('divisor', n, txt)

    # -- memory ---------------------------------------------------------------
    def lval(self, n, st):
        """[(state, ('var', id) | ('mem', ptr, size) | None)]"""
        n = strip(n)
        if n.kind == 'DeclRefExpr' and n.ref:
            return [(st, ('var', n.ref[0], n))]
        if n.kind == 'ArraySubscriptExpr':
            out = []
            for s, (p, i) in self.evs(n.kids, st):
                if isinstance(i, Ptr):
                    p, i = i, p
                out.append((s, self.place(n, p, i, s)))
            return out
        if n.kind == 'UnaryOperator' and n.op == '*':
            return [(s, self.place(n, p, num(0), s)) for s, p in self.ev(n.kids[0], st)]
        if n.kind == 'MemberExpr':
            return [(s, None) for s, _ in self.ev(n.kids[0], st)]
        return [(st, None)]

    def place(self, n, p, i, s):
        w = sizeof(n.type)
        if isinstance(p, tuple) and p == NULL:
            self.report('null', n, text(n), 'a null pointer is dereferenced')
            return None
        if not isinstance(p, Ptr) or not isinstance(i, Poly) or not w:
            return None
        return ('mem', p.add(i.scale(w)), w, n)

    def label(self, o):
        ob = self.objs[o] if isinstance(o, str) else o
        return ob.name or text(ob.node)[:40]

    def touch(self, place, st, write):
        """an access to memory"""
        _, p, w, n = place
        o = self.objs.get(p.obj)
        r = st.heap.get(p.obj)
        if o is None or r is None:
            return
        what = self.label(o)
        if r.status in ('maybe', 'null') and o.kind in ('heap', 'array'):
            self.key_null(o, n, r.status)
            st.heap[p.obj] = r = r.copy(status='held')
        elif r.status in ('freed', 'dropped'):
            self.report('released', n, what, '%s is used after it was released' % what)
            return
        elif p.idx is not None:
            for lo, hi in r.freed:
                facts = st.facts
                if self.inside(st, p.idx, lo, hi):
                    self.report('released', n, what, '%s is used after it was released' % what)
        size = self.extent(p, st, n)
        if size is None:
            self.doubt('bounds', n, 'extent of %s in %s' % (what, text(n)))
            return
        if self.mute:
            return
        lo = p.off.scale(Fraction(1, w))
        self.check(st, 'bounds', n, lo, text(n) + ' (below)', 'index of %s is not negative' % text(n))
        hi = (size - p.off).scale(Fraction(1, w)) - num(1)
        self.check(st, 'bounds', n, hi, text(n) + ' (above)', 'index of %s is below the %s elements of %s' % (
            text(n), nice(size.scale(Fraction(1, w))), what))

    def key_null(self, o, n, status):
        if self.mute:
            return
        f = o.func.name if o.func is not None else self.fn()
        self.sink('null', n, '%s:%s:%s' % (self.cf.rel, f, self.label(o)), '%s is used without checking that it was obtained' % self.label(o))

    def inside(self, st, i, lo, hi):
        facts = [st.norm(f) for f in st.facts]
        return entails(facts, st.norm(i - lo)) and entails(facts, st.norm(hi - i) - num(1))

    def extent(self, p, st, n):
        o = self.objs[p.obj]
        if o.kind == 'array':
            if not p.data:
                return None
            if o.flags is not None and not (o.flags & 1):
                self.report('layout', n, self.label(o), 'the data of %s are read as one contiguous block, but the array may be strided (requested flags %d)' % (self.label(o), o.flags))
            size = self.array_bytes(o, st)
            return size
        if o.size is None:
            return None
        size = o.size
        if o.index is not None and p.idx is not None:
            size = subst(size, o.index, p.idx)
        return st.norm(size)

    def array_bytes(self, o, st):
        if o.dtype is None or o.dtype not in ITEM:
            return None
        nd = self.ndim(o, st)
        if nd is None:
            return None
        size = num(ITEM[o.dtype])
        for k in range(nd):
            size = size * st.norm(self.dim(o, k))
        return size

    def ndim(self, o, st):
        v = st.norm(o.ndim)
        c = v.const()
        if c is not None:
            return int(c)
        facts = [st.norm(f) for f in st.facts]
        for k in range(0, 5):
            if entails(facts, v - num(k)) and entails(facts, num(k) - v):
                return k
        return None

    def dim(self, o, k):
        if o.dims is not None:
            return o.dims[k] if k < len(o.dims) else num(0)
        return atom('%s.shape%d' % (o.tag, k))

    def load(self, n, st):
        out = []
        for s, pl in self.lval(n, st):
            v = FLT if base(n.type) in SIZES and base(n.type) not in INTS else UNK
            if pl is None:
                if base(n.type) in INTS:
                    v = atom(self.fresh(text(n)[:20], True))
                out.append((s, v))
                continue
            s = s.copy()
            if pl[0] == 'mem':
                p = pl[1]
                o = self.objs.get(p.obj)
                if o is not None and o.kind == 'dims':
                    out.append((s, self.dims_item(o, p, pl[2], s, n)))
                    continue
                if o is not None and o.elems is not None:
                    self.touch(pl, s, False)
                    c = s.norm(p.off).const()
                    if c is not None and c % pl[2] == 0 and 0 <= c // pl[2] < len(o.elems):
                        out.append((s, o.elems[int(c // pl[2])]))
                        continue
                    out.append((s, atom(self.fresh(text(n)[:20], True)) if base(n.type) in INTS else v))
                    continue
                self.touch(pl, s, False)
                if is_ptr(n.type) and o is not None:
                    v = self.row(n, o, p, s)
                elif base(n.type) in INTS:
                    v = atom(self.fresh(text(n)[:20], True))
            elif pl[0] == 'var':
                v = s.env.get(pl[1], UNK)
            out.append((s, v))
        return out

    e_ArraySubscriptExpr = load

    def e_MemberExpr(self, n, st):
        return [(s, atom(self.fresh(n.name or 'member', True)) if base(n.type) in INTS else UNK) for s, _ in self.ev(n.kids[0], st)]

    def dims_item(self, o, p, w, st, n):
        arr = o.of
        c = st.norm(p.off).const()
        if c is None or c % w:
            return atom(self.fresh('dim', True))
        return self.shape(arr, int(c // w), st, n)

    def shape(self, arr, k, st, n):
        self.check(st, 'bounds', n, st.norm(arr.ndim) - num(k + 1), 'dimension %d of %s' % (k, self.label(arr)), '%s has a dimension %d' % (self.label(arr), k))
        return st.norm(self.dim(arr, k))

    def row(self, n, o, p, st):
        """the pointer stored in an element of a pointer array"""
        r = st.heap[o.id]
        i = p.off.scale(Fraction(1, 8))
        i = st.norm(i)
        facts = [st.norm(f) for f in st.facts]
        for lo, hi, ptr in reversed(r.rows):
            lo, hi = st.norm(lo), st.norm(hi)
            if entails(facts, i - lo) and entails(facts, hi - i - num(1)):
                return self.member(ptr, i, st)
        if not r.rows:
            if o.kind == 'heap':
                self.report('bounds', n, 'element ' + text(n), 'the pointer %s is used before anything is stored in it' % text(n))
            return UNK
        rows = self.merge(r.rows, st)
        if self.guess and rows:
            # while finding out what a turn changes, the index is not known
            fam = [x for x in rows if isinstance(x[2], Ptr) and x[2].idx is not None] or rows
            return self.member(fam[0][2], i, st)
        if len(rows) == 1:
            lo, hi, ptr = rows[0]
            if self.mute:
                return self.member(ptr, i, st)
            self.check(st, 'bounds', n, i - lo, 'element %s (below)' % text(n), 'the pointer %s was stored' % text(n))
            self.check(st, 'bounds', n, hi - i - num(1), 'element %s (above)' % text(n), 'the pointer %s was stored' % text(n))
            return self.member(ptr, i, st)
        if not self.mute:
            self.doubt('bounds', n, 'pointer %s' % text(n))
        return UNK

    def member(self, ptr, i, st):
        if not isinstance(ptr, Ptr):
            return ptr
        o = self.objs[ptr.obj]
        off = ptr.off
        if '#' in atoms(off):
            off = subst(off, '#', i)
        if ptr.idx is not None and '#' in atoms(ptr.idx):
            return Ptr(ptr.obj, off, subst(ptr.idx, '#', i), ptr.data)
        return Ptr(ptr.obj, off, ptr.idx, ptr.data)

    def assign(self, n, v, st):
        r = self.store(n, v, st, quiet=True)
        return r[0]

    def store(self, n, v, st, quiet=False):
        out = []
        for s, pl in self.lval(n, st):
            s = s.copy()
            if pl is None:
                self.escape(v, s)
            elif pl[0] == 'var':
                t = base(pl[2].type)
                if t in INTS and not isinstance(v, Poly):
                    v = atom(self.fresh(pl[2].ref[1], True))
                s.env[pl[1]] = v
                self.christen(v, pl[2].ref[1])
            else:
                p = pl[1]
                if not quiet or True:
                    self.touch(pl, s, True)
                o = self.objs.get(p.obj)
                if is_ptr(strip(n).type) and o is not None and p.obj in s.heap:
                    i = s.norm(p.off.scale(Fraction(1, 8)))
                    r = s.heap[p.obj]
                    self.christen(v, text(strip(n).kids[0]) + '[]' if strip(n).kids else 'row')
                    s.heap[p.obj] = r.copy(rows=r.rows + ((i, i + num(1), v),))
            out.append(s)
        return out

    def christen(self, v, name):
        if isinstance(v, Ptr) and v.obj in self.objs and self.objs[v.obj].name is None:
            self.objs[v.obj].name = name

    def escape(self, v, st):
        if isinstance(v, Ptr) and v.obj in st.heap and st.heap[v.obj].status in ('maybe', 'held'):
            st.heap[v.obj] = st.heap[v.obj].copy(status='given')

    # -- calls -----------------------------------------------------------------
    def e_CallExpr(self, n, st):
        name = callee(n)
        f = strip(n.kids[0])
        args = n.kids[1:]
        if name is None:
            x = f
            while x is not None and x.kind in ('UnaryOperator', 'CStyleCastExpr', 'ImplicitCastExpr', 'ParenExpr') and x.kids:
                x = strip(x.kids[0])
            if x is not None and x.kind == 'ArraySubscriptExpr' and strip(x.kids[0]).kind == 'DeclRefExpr' and strip(x.kids[0]).ref[1].startswith('PyArray_API'):
                k = strip(x.kids[1])
                if k.kind == 'IntegerLiteral':
                    name = 'api:' + API.get(int(k.value), str(k.value))
        if name in self.cf.funcs:
            return self.inline(n, name, args, st)
        if name in ('PyArg_ParseTupleAndKeywords', 'PyArg_ParseTuple'):
            return self.parse(n, name, args, st)
        out = []
        for s, vs in self.evs(args, st):
            s = s.copy()
            r = self.external(n, name, args, vs, s)
            out += r if isinstance(r, list) else [(s, r)]
        return out

    def fail_or(self, s):
        return s

    def external(self, n, name, args, vs, s):
        if name in ('malloc', 'PyMem_Malloc', 'PyMem_RawMalloc', 'calloc', 'PyMem_Calloc'):
            size = vs[0] if isinstance(vs[0], Poly) else None
            if 'alloc' in name and len(vs) == 2:
                size = size * vs[1] if size is not None and isinstance(vs[1], Poly) else None
            o = self.new(s, 'heap', n, size)
            return Ptr(o.id)
        if name in ('free', 'PyMem_Free', 'PyMem_RawFree'):
            self.free(n, args[0], vs[0], s)
            return UNK
        if name == 'api:FromAny':
            o = self.new(s, 'array', n)
            o.tag = self.fresh('array')
            o.ndim = atom(o.tag + '.ndim')
            s.know(o.ndim)
            s.know(num(64) - o.ndim)
            for k in range(4):
                s.know(atom('%s.shape%d' % (o.tag, k)))
            o.dtype = int(vs[1][1]) if isinstance(vs[1], tuple) and vs[1][0] == 'descr' else None
            if isinstance(vs[4], Poly) and vs[4].const() is not None:
                o.flags = int(vs[4].const())
            for k, which in ((2, 'min'), (3, 'max')):
                if isinstance(vs[k], Poly) and vs[k].const():
                    s.know(o.ndim - vs[k] if which == 'min' else vs[k] - o.ndim)
            return Ptr(o.id)
        if name == 'api:DescrFromType':
            c = vs[0].const() if isinstance(vs[0], Poly) else None
            return ('descr', c) if c is not None else UNK
        if name in ('api:New', 'api:Zeros', 'api:Empty', 'api:NewFromDescr'):
            nd, dims, typ = (vs[1], vs[2], vs[3]) if name == 'api:New' else (vs[0], vs[1], vs[2])
            if name == 'api:NewFromDescr':
                nd, dims, typ = vs[2], vs[3], vs[1]
            o = self.new(s, 'array', n)
            o.tag = self.fresh('array')
            o.flags = 1
            o.dtype = None
            if isinstance(typ, Poly) and typ.const() is not None:
                o.dtype = int(typ.const())
            elif isinstance(typ, tuple) and typ[0] == 'descr':
                o.dtype = int(typ[1])
            o.ndim = nd if isinstance(nd, Poly) else atom(o.tag + '.ndim')
            c = o.ndim.const()
            if isinstance(dims, Ptr) and self.objs[dims.obj].elems is not None and c is not None:
                src = self.objs[dims.obj].elems
                if c > len(src):
                    self.report('bounds', n, 'dimensions of ' + text(n)[:30], 'an array of %d dimensions is created from %d extents' % (c, len(src)))
                o.dims = [x if isinstance(x, Poly) else atom(self.fresh('dim', True)) for x in src[:int(c)]]
                for d in o.dims:
                    s.know(d)       # creation of an array with a negative extent fails
            return Ptr(o.id)
        if name == 'api:Return':
            if isinstance(vs[0], Ptr):
                self.hand(n, vs[0], s)
            return vs[0]
        if name in ('PyArray_DATA', 'PyArray_BYTES', 'PyArray_GETPTR1', 'PyArray_GETPTR2'):
            if isinstance(vs[0], Ptr):
                self.live(n, vs[0], s)
                if name.startswith('PyArray_GETPTR'):
                    return UNK
                return Ptr(vs[0].obj, data=True)
            return UNK
        if name == 'PyArray_NDIM':
            if isinstance(vs[0], Ptr) and self.objs[vs[0].obj].kind == 'array':
                self.live(n, vs[0], s)
                return s.norm(self.objs[vs[0].obj].ndim)
            return atom(self.fresh('ndim', True))
        if name == 'PyArray_DIM':
            if isinstance(vs[0], Ptr) and self.objs[vs[0].obj].kind == 'array' and isinstance(vs[1], Poly) and vs[1].const() is not None:
                self.live(n, vs[0], s)
                return self.shape(self.objs[vs[0].obj], int(vs[1].const()), s, n)
            return atom(self.fresh('dim', True))
        if name in ('PyArray_DIMS', 'PyArray_SHAPE'):
            if isinstance(vs[0], Ptr) and self.objs[vs[0].obj].kind == 'array':
                self.live(n, vs[0], s)
                o = self.new(s, 'dims', n, status='borrowed')
                o.of = self.objs[vs[0].obj]
                return Ptr(o.id)
            return UNK
        if name == 'PyArray_SIZE' or name == 'api:MultiplyList':
            return atom(self.fresh('size', True))
        if name in ('Py_DECREF', 'Py_XDECREF', '_Py_DECREF', 'Py_CLEAR'):
            self.drop(n, args[0], vs[0], s, name == 'Py_XDECREF')
            return UNK
        if name in ('Py_INCREF', 'Py_XINCREF', '_Py_INCREF'):
            if isinstance(vs[0], Ptr):
                s.heap[vs[0].obj] = s.heap[vs[0].obj].copy(status='given')
            return UNK
        if name in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetNone', 'PyErr_SetObject', 'PyErr_BadArgument'):
            s.exc = True
            return UNK
        if name == 'PyErr_Clear':
            s.exc = False
            return UNK
        if name == 'PyErr_NoMemory':
            s.exc = True
            return NULL
        if name in ('PyEval_SaveThread', 'PyEval_RestoreThread'):
            return UNK
        if name in ('memcpy', 'memmove', 'memset'):
            for k in ((0, 1) if name != 'memset' else (0,)):
                if isinstance(vs[k], Ptr) and isinstance(vs[2], Poly):
                    p = vs[k]
                    size = self.extent(p, s, n)
                    o = self.objs[p.obj]
                    r = s.heap.get(p.obj)
                    if r is not None and r.status in ('maybe', 'null') and o.kind == 'heap':
                        self.key_null(o, n, r.status)
                        s.heap[p.obj] = r.copy(status='held')
                    if size is not None:
                        self.check(s, 'bounds', n, size - p.off - vs[2], '%s %s' % (name, text(args[k])), '%s stays within %s' % (name, self.label(o)))
                    else:
                        self.doubt('bounds', n, '%s of %s' % (name, text(args[k])))
            return vs[0]
        if name in PURE or (name or '').startswith('omp_'):
            if base(n.type) in INTS:
                return atom(self.fresh(name, False))
            return FLT if base(n.type) in SIZES else UNK
        for v in vs:
            if isinstance(v, Ptr):
                self.doubt('call', n, 'what %s does with its arguments' % (name or text(n.kids[0])))
                break
        if is_ptr(n.type):
            # an object of the Python interface: new reference or NULL
            return UNK
        if base(n.type) in INTS:
            return atom(self.fresh(name or 'call', True))
        return FLT if base(n.type) in SIZES else UNK

    def live(self, n, p, s):
        r = s.heap.get(p.obj)
        o = self.objs[p.obj]
        if r is None or o.kind != 'array':
            return
        if r.status in ('maybe', 'null'):
            self.key_null(o, n, r.status)
            s.heap[p.obj] = r.copy(status='held')
        elif r.status == 'dropped':
            self.report('released', n, self.label(o), '%s is used after its reference was released' % self.label(o))

    def drop(self, n, a, v, s, x):
        """Py_DECREF"""
        if isinstance(v, tuple):
            if v == NULL and not x:
                self.report('null', n, 'Py_DECREF ' + text(a), 'Py_DECREF of NULL')
            return
        if not isinstance(v, Ptr):
            return
        r = s.heap.get(v.obj)
        o = self.objs[v.obj]
        if r is None:
            return
        if o.kind in ('heap',):
            self.report('twice', n, 'Py_DECREF ' + self.label(o), '%s is no Python object' % self.label(o))
        if r.status == 'borrowed':
            self.report('twice', n, 'Py_DECREF ' + self.label(o), 'Py_DECREF of a borrowed reference (%s)' % self.label(o))
        elif r.status in ('dropped', 'given') and o.kind == 'array':
            self.report('twice', n, 'Py_DECREF ' + self.label(o), 'the reference %s is released although it was %s before' % (
                self.label(o), 'released' if r.status == 'dropped' else 'handed over'))
        elif r.status in ('maybe', 'null') and not x:
            self.report('null', n, 'Py_DECREF ' + self.label(o), 'Py_DECREF of %s, which may be NULL' % self.label(o))
            s.heap[v.obj] = r.copy(status='dropped')
        elif r.status == 'null':
            pass
        else:
            s.heap[v.obj] = r.copy(status='dropped')

    def hand(self, n, p, s):
        r = s.heap.get(p.obj)
        if r is None:
            return
        o = self.objs[p.obj]
        if r.status == 'dropped':
            self.report('released', n, self.label(o), '%s is returned after its reference was released' % self.label(o))
        elif r.status in ('maybe',):
            self.key_null(o, n, r.status)
        if r.status != 'null':
            s.heap[p.obj] = r.copy(status='given')

    def free(self, n, a, v, s):
        if not isinstance(v, Ptr):
            return
        r = s.heap.get(v.obj)
        o = self.objs[v.obj]
        if r is None:
            return
        what = self.label(o)
        c = s.norm(v.off).const()
        if o.kind == 'array' or o.kind in ('local', 'dims'):
            self.report('twice', n, 'free ' + what, 'free() of memory of %s, which was not allocated here' % what)
            return
        if c is not None and c != 0:
            self.report('twice', n, 'free ' + what, 'free() of the middle of %s' % what)
            return
        if v.idx is not None:
            i = s.norm(v.idx)
            for lo, hi in r.freed:
                if self.inside(s, i, lo, hi):
                    self.report('twice', n, 'free ' + what, '%s is released twice' % what)
            s.heap[v.obj] = r.copy(freed=r.freed + ((i, i + num(1)),))
            return
        if r.status == 'freed':
            self.report('twice', n, 'free ' + what, '%s is released twice' % what)
        elif r.status in ('borrowed', 'given'):
            if o.kind == 'param':
                self.doubt('twice', n, 'free() of the parameter %s' % what)
        elif r.status == 'null':
            pass
        else:
            # the rows can no longer be reached through it
            self.lost_rows(n, o, s)
            s.heap[v.obj] = s.heap[v.obj].copy(status='freed')

    def lost_rows(self, n, o, s, when='is released'):
        r = s.heap[o.id]
        rows = self.merge(r.rows, s)
        for lo, hi, ptr in rows:
            if not isinstance(ptr, Ptr) or ptr.obj not in s.heap:
                continue
            q = self.objs[ptr.obj]
            if q.kind != 'heap' or ptr.data:
                continue
            rr = s.heap[ptr.obj]
            if rr.status in ('given', 'null', 'freed'):
                continue
            if ptr.idx is None:
                # a single buffer that is stored once
                continue
            lo, hi = s.norm(lo), s.norm(hi)
            freed = self.merge([(a, b, None) for a, b in rr.freed], s)
            key = '%s:%s' % (q.func.name if q.func else self.fn(), self.label(q))
            facts = [s.norm(f) for f in s.facts]
            if entails(facts, lo - hi):
                continue
            if not freed:
                if contradictory(facts):
                    continue
                w = witness(facts, lo - hi, self.vague)
                if w is not None and not self.mute:
                    self.sink('leak', n, '%s:%s' % (self.cf.rel, key), '%s is not released when the array that holds it %s' % (self.label(q), when))
                elif not self.mute:
                    self.doubt('leak', n, 'rows of %s' % self.label(o))
                continue
            if len(freed) == 1:
                a, b = s.norm(freed[0][0]), s.norm(freed[0][1])
                if entails(facts, lo - a) and entails(facts, b - hi):
                    self.good('leak', n, 'rows of %s are released' % self.label(o))
                    continue
                w = witness(facts + [hi - lo - num(1)], lo - a, self.vague) or witness(facts + [hi - lo - num(1)], b - hi, self.vague)
                if w is not None and not self.mute:
                    self.sink('leak', n, '%s:%s' % (self.cf.rel, key), 'only the elements %s to %s of the %s to %s of %s are released' % (
                        nice(a), nice(b - num(1)), nice(lo), nice(hi - num(1)), self.label(q)))
                    continue
            self.doubt('leak', n, 'rows of %s' % self.label(o))

    def merge(self, ranges, s):
        """adjacent ranges as one"""
        out = []
        for lo, hi, ptr in ranges:
            lo, hi = s.norm(lo), s.norm(hi)
            for k, (a, b, q) in enumerate(out):
                same = q is ptr or (isinstance(q, Ptr) and isinstance(ptr, Ptr) and q.obj == ptr.obj)
                if same and not (lo - b):
                    out[k] = (a, hi, q)
                    break
                if same and not (hi - a):
                    out[k] = (lo, b, q)
                    break
            else:
                out.append((lo, hi, ptr))
        return out

    def parse(self, n, name, args, st):
        k = 2 if name == 'PyArg_ParseTuple' else 4
        fmt = strip(args[k - 2 if k == 4 else 1])
        if k == 4:
            fmt = strip(args[2])
        f = fmt.value.strip('"') if fmt.kind == 'StringLiteral' and fmt.value else None
        tgt = args[k:]
        bad, ok = st.copy(), st.copy()
        bad.exc = True
        units = None
        if f is not None:
            units = []
            opt = False
            for ch in f.split(':')[0].split(';')[0]:
                if ch == '|':
                    opt = True
                elif ch == '$':
                    pass
                elif ch in FORMAT:
                    units.append((ch, opt))
                else:
                    units = None
                    break
        if units is not None and not self.mute:
            if len(units) != len(tgt):
                self.report('arguments', n, 'format', 'the format %s has %d units for %d variables' % (f, len(units), len(tgt)))
            elif k == 4:
                kw = strip(args[3])
                names = None
                if kw.kind == 'DeclRefExpr':
                    for d in self.stack[-1].walk():
                        if d.kind == 'VarDecl' and d.id == kw.ref[0]:
                            il = [x for x in d.kids if x.kind == 'InitListExpr']
                            if il:
                                names = [strip(x) for x in il[0].kids]
                if names is not None:
                    strings = [x for x in names if x.kind == 'StringLiteral']
                    if len(strings) == len(names):
                        self.report('arguments', n, 'keywords', 'the list of keywords has no final NULL')
                    elif len(strings) != len(units):
                        self.report('arguments', n, 'keywords', '%d keywords for %d arguments' % (len(strings), len(units)))
                    else:
                        self.good('arguments', n, 'format, keywords and variables agree')
        for i, a in enumerate(tgt):
            x = strip(a)
            if x.kind == 'UnaryOperator' and x.op == '&' and strip(x.kids[0]).kind == 'DeclRefExpr':
                v = strip(x.kids[0])
                t = base(v.type)
                if units is not None and i < len(units) and not self.mute:
                    if t not in FORMAT[units[i][0]]:
                        self.report('arguments', n, 'type of ' + v.ref[1], 'format unit %s stores in %s, of type %s' % (units[i][0], v.ref[1], t))
                if is_ptr(t):
                    o = self.new(ok, 'object', v, status='borrowed')
                    o.name = v.ref[1]
                    ok.env[v.ref[0]] = Ptr(o.id)
                elif t in INTS:
                    ok.env[v.ref[0]] = atom(v.ref[1])
                else:
                    ok.env[v.ref[0]] = FLT
        return [(bad, num(0)), (ok, num(1))]

    def inline(self, n, name, args, st):
        g = self.cf.funcs[name]
        ps = self.cf.params(g)
        out = []
        for s, vs in self.evs(args, st):
            s = s.copy()
            if name in self.recursive:
                out += self.recursion(n, g, ps, args, vs, s)
                continue
            if len(self.stack) > 12:
                raise TooMany()
            for p, v in zip(ps, vs):
                if base(p.type) in INTS and not isinstance(v, Poly):
                    v = atom(self.fresh(p.name or 'arg', True))
                s.env[p.id] = v
            self.stack.append(g)
            res = self.block(self.cf.body(g), [s])
            self.stack.pop()
            own = {d.id for d in g.walk() if d.kind in ('VarDecl', 'ParmVarDecl')}
            done = {}
            for r in res:
                v = UNK
                if r.mode in ('ret', 'run'):
                    r.mode = 'run'
                    v = r.val if r.val is not None else UNK
                    r.val = None
                r.env = {k: x for k, x in r.env.items() if k not in own}
                self.tidy(r, v)
                k = (self.key(r), repr(v), r.mode)
                if k not in done:
                    done[k] = True
                    out.append((r, v))
        return out

    def tidy(self, r, v):
        """facts about approximated quantities that nothing mentions any more"""
        used = set()

        def see(x):
            if isinstance(x, Poly):
                used.update(atoms(x))
            elif isinstance(x, Ptr):
                see(x.off)
                if x.idx is not None:
                    see(x.idx)
        for x in r.env.values():
            see(x)
        see(v)
        for h in r.heap.values():
            for a, b, p in h.rows:
                see(a), see(b), see(p)
            for a, b in h.freed:
                see(a), see(b)
        for o in r.heap:
            if self.objs[o].size is not None:
                see(self.objs[o].size)
        for a, q in r.sub:
            see(q)
        r.facts = [f for f in r.facts if not any(a in self.vague and a not in used for a in atoms(f))]

    def key(self, s):
        return (tuple(sorted((k, repr(v) if not isinstance(v, Poly) else v.text()) for k, v in s.env.items())), tuple(sorted(f.text() for f in s.facts)),
                tuple(sorted((k, r.status, rowtext(r.rows), rowtext(r.freed)) for k, r in s.heap.items())), s.exc)

    # -- recursive functions ------------------------------------------------------
    def recursion(self, n, g, ps, args, vs, s):
        """extents of the buffers handed to a recursive function: at least its integer argument, as it is analysed"""
        ip = [i for i, p in enumerate(ps) if base(p.type) in INTS]
        if len(ip) == 1 and isinstance(vs[ip[0]], Poly):
            k = s.norm(vs[ip[0]])
            for i, p in enumerate(ps):
                if not is_ptr(p.type) or not isinstance(vs[i], Ptr):
                    if is_ptr(p.type):
                        self.doubt('bounds', n, 'extent of the argument %s of %s' % (text(args[i]), g.name))
                    continue
                o = self.objs[vs[i].obj]
                depth = 2 if is_ptr(pointee(p.type) or '') else 1
                w = sizeof(pointee(p.type)) or 8
                size = self.extent(vs[i], s, n)
                r = s.heap.get(o.id)
                if r is not None and r.status in ('maybe', 'null') and o.kind == 'heap':
                    self.key_null(o, n, r.status)
                    s.heap[o.id] = r = r.copy(status='held')
                if r is not None and r.status == 'freed':
                    self.report('released', n, self.label(o), '%s is used after it was released' % self.label(o))
                if size is None:
                    self.doubt('bounds', n, 'extent of %s' % text(args[i]))
                    continue
                # called with a count below one, the function has nothing to access
                t = s.copy()
                t.know(k - num(1))
                if contradictory(t.facts):
                    continue
                self.check(t, 'bounds', n, size.scale(Fraction(1, w)) - vs[i].off.scale(Fraction(1, w)) - k, 'argument %s of %s' % (text(args[i]), g.name),
                           '%s has the %s elements that %s accesses' % (text(args[i]), nice(k), g.name))
                if depth == 2 and r is not None:
                    rows = self.merge(r.rows, s)
                    if len(rows) == 1:
                        lo, hi, ptr = rows[0]
                        self.check(t, 'bounds', n, hi - k, 'rows of %s for %s' % (text(args[i]), g.name), '%s has the %s rows that %s accesses' % (text(args[i]), nice(k), g.name))
                        if isinstance(ptr, Ptr):
                            q = self.objs[ptr.obj]
                            rr = s.heap.get(q.id)
                            if rr is not None and rr.status == 'maybe' and q.kind == 'heap':
                                self.key_null(q, n, rr.status)
                                s.heap[q.id] = rr.copy(status='held')
                            x = atom(self.fresh('row', False))
                            t.know(x)
                            t.know(k - x - num(1))
                            m = self.member(ptr, x, t)
                            sz = self.extent(m, t, n)
                            if sz is not None:
                                self.check(t, 'bounds', n, (sz - m.off).scale(Fraction(1, sizeof(pointee(pointee(p.type))) or 8)) - k, 'columns of %s for %s' % (text(args[i]), g.name),
                                           'the rows of %s have the %s elements that %s accesses' % (text(args[i]), nice(k), g.name))
                    else:
                        self.doubt('bounds', n, 'rows of %s' % text(args[i]))
            if g in self.stack:
                own = [st for st in [s]][0]
                p = ps[ip[0]]
                n0 = atom(p.name)
                self.check(s, 'ends', n, n0 - k - num(1), 'recursion of ' + g.name, 'the recursive call has a smaller %s' % p.name)
                self.check(s, 'ends', n, n0 - num(1), 'depth of ' + g.name, 'the recursion ends')
        else:
            self.doubt('bounds', n, 'recursive function %s' % g.name)
        v = FLT
        if is_ptr(n.type):
            v = UNK
        elif base(n.type) in INTS:
            v = atom(self.fresh(g.name, True))
        return [(s, v)]

    def run_recursive(self, g):
        """a recursive function on its own: count n, buffers with n elements (of n elements)"""
        st = State()
        ps = self.cf.params(g)
        ip = [p for p in ps if base(p.type) in INTS]
        if len(ip) != 1:
            return
        nn = atom(ip[0].name)
        for p in ps:
            if p is ip[0]:
                st.env[p.id] = nn
            elif is_ptr(p.type):
                w = sizeof(pointee(p.type)) or 8
                o = self.new(st, 'param', p, nn.scale(w), 'borrowed', func=g)
                o.name = p.name
                if is_ptr(pointee(p.type) or ''):
                    w2 = sizeof(pointee(pointee(p.type))) or 8
                    q = self.new(st, 'param', p, nn.scale(w2), 'borrowed', func=g)
                    q.name = p.name + '[]'
                    st.heap[o.id] = Rec('borrowed', ((num(0), nn, Ptr(q.id, num(0), atom('#'))),))
                st.env[p.id] = Ptr(o.id)
            else:
                st.env[p.id] = FLT
        self.stack.append(g)
        res = self.block(self.cf.body(g), [st])
        for r in res:
            self.at_return(g, r, False)
        self.stack.pop()

    # -- roots ---------------------------------------------------------------------
    def run_root(self, g):
        st = State()
        for p in self.cf.params(g):
            o = self.new(st, 'object', p, status='borrowed', func=g)
            o.name = p.name
            st.env[p.id] = Ptr(o.id)
        self.stack.append(g)
        res = self.block(self.cf.body(g), [st])
        for r in res:
            self.at_return(g, r, True)
        self.stack.pop()
        return res

    def at_return(self, g, s, root):
        node = getattr(s, 'retnode', None) or g
        v = s.val
        node = self.retnodes.get(id(s), g) if hasattr(self, 'retnodes') else g
        if root and s.mode in ('ret', 'run'):
            if s.mode == 'run':
                self.report('result', g, 'return', 'the end of the function is reached without a result')
            null = v == NULL or (isinstance(v, Ptr) and v.obj in s.heap and s.heap[v.obj].status == 'null')
            if null:
                if s.exc:
                    self.good('exception', g, 'NULL is returned with an exception set')
                else:
                    self.report('exception', g, 'no exception', 'NULL is returned without setting an exception (%s)' % self.how(s))
            elif isinstance(v, Ptr):
                if s.exc:
                    self.report('exception', g, 'result with exception', 'a result is returned although an exception was set')
                r = s.heap.get(v.obj)
                if r is not None and r.status in ('held', 'maybe'):
                    s.heap[v.obj] = r.copy(status='given')
                elif r is not None and r.status == 'dropped':
                    self.report('released', g, self.label(v.obj), '%s is returned after its reference was released' % self.label(v.obj))
        if s.mode not in ('ret', 'run'):
            return
        given = {v.obj} if isinstance(v, Ptr) else set()
        rowobjs = set()
        for oid, r in s.heap.items():
            for lo, hi, ptr in r.rows:
                if isinstance(ptr, Ptr):
                    rowobjs.add(ptr.obj)
        for oid, r in list(s.heap.items()):
            o = self.objs[oid]
            if o.kind not in ('heap', 'array') or oid in given:
                continue
            if o.index is not None or oid in rowobjs:
                continue
            key = '%s:%s' % (o.func.name if o.func else g.name, self.label(o))
            if r.status in ('held', 'maybe'):
                if not self.mute:
                    self.sink('leak', o.node, '%s:%s' % (self.cf.rel, key), '%s is not released on a way out of %s (%s)' % (self.label(o), g.name, self.how(s)))
                self.lost_rows(g, o, s, 'is lost')
            elif r.status in ('freed', 'dropped', 'given'):
                self.good('leak', o.node, '%s is released on this way out' % self.label(o))

    def how(self, s):
        v = s.val
        if v == NULL or isinstance(v, Ptr) and v.obj in s.heap and s.heap[v.obj].status == 'null':
            nul = [self.label(o) for o, r in s.heap.items() if r.status == 'null' and self.objs[o].kind in ('heap', 'array')]
            return 'error return%s' % (', ' + ', '.join(nul[:2]) + ' is NULL' if nul else '')
        return 'normal return'

    # -- statements ------------------------------------------------------------------
    def block(self, n, sts):
        return self.run(n, sts)

    def run(self, n, sts):
        """execute a statement from several states; states whose mode is not 'run' pass through"""
        out = []
        live = []
        for s in sts:
            (live if s.mode == 'run' else out).append(s)
        if n.kind in ('CompoundStmt', 'LabelStmt') and any(s.mode.startswith('goto:') for s in out):
            live_goto = [s for s in out if s.mode.startswith('goto:')]
        if n.kind == 'CompoundStmt':
            cur = sts
            for k in n.kids:
                cur = self.run(k, cur)
            return self.prune(cur)
        if n.kind == 'LabelStmt':
            mine = [s for s in out if s.mode == 'goto:%s' % (n.raw.get('declId') or n.name)]
            rest = [s for s in out if s not in mine]
            for s in mine:
                s.mode = 'run'
            return rest + self.run(n.kids[0], live + mine) if n.kids else rest + live + mine
        if not live:
            return out
        m = getattr(self, 's_' + n.kind, None)
        for s in live:
            if m is not None:
                out += m(n, s)
            elif is_expr(n):
                out += [r for r, _ in self.ev(n, s)]
            else:
                out.append(s)
        if len(out) > 600:
            raise TooMany()
        return out

    def s_NullStmt(self, n, s):
        return [s]

    def s_DeclStmt(self, n, s):
        sts = [s]
        for d in n.kids:
            if d.kind != 'VarDecl':
                continue
            nxt = []
            for t in sts:
                nxt += self.declare(d, t)
            sts = nxt
        return sts

    def declare(self, d, s):
        init = d.kids[-1] if d.raw.get('init') and d.kids else None
        t = base(d.type)
        if t.endswith(']'):
            s = s.copy()
            elems = None
            sz = sizeof(t)
            states = [(s, None)]
            if init is not None and init.kind == 'InitListExpr':
                states = self.evs(init.kids, s)
            out = []
            for s2, vs in states:
                s2 = s2.copy()
                o = self.new(s2, 'local', d, num(sz) if sz else None, 'borrowed')
                o.name = d.name
                if vs is not None and sz:
                    w = sizeof(pointee(t))
                    vs = vs + [num(0)] * (sz // w - len(vs)) if w else vs
                o.elems = vs
                s2.env[d.id] = Ptr(o.id)
                out.append(s2)
            return out
        if init is None:
            s = s.copy()
            s.env[d.id] = ('uninit',) if is_ptr(t) else (atom(self.fresh(d.name, True)) if t in INTS else FLT)
            return [s]
        out = []
        for s2, v in self.ev(init, s):
            s2 = s2.copy()
            if t in INTS and not isinstance(v, Poly):
                v = atom(self.fresh(d.name, True))
            s2.env[d.id] = v
            self.christen(v, d.name)
            out.append(s2)
        return out

    def s_ReturnStmt(self, n, s):
        if not n.kids:
            s.mode = 'ret'
            return [s]
        out = []
        for s2, v in self.ev(n.kids[0], s):
            s2 = s2.copy()
            s2.mode, s2.val = 'ret', v
            out.append(s2)
        return out

    def s_IfStmt(self, n, s):
        kids = n.kids
        out = []
        for t, s2 in self.cond(kids[0], s):
            if t:
                out += self.run(kids[1], [s2])
            elif len(kids) > 2:
                out += self.run(kids[2], [s2])
            else:
                out.append(s2)
        return self.join(s, self.prune(out))

    def join(self, old, sts):
        """states that differ only in what was decided about floating values are one"""
        out = []
        seen = set()
        for s in sts:
            if s.mode != 'run':
                out.append(s)
                continue
            key = self.key(s)
            if key in seen:
                continue
            seen.add(key)
            out.append(s)
        return out

    def s_GotoStmt(self, n, s):
        s = s.copy()
        s.mode = 'goto:%s' % (n.raw.get('targetLabelDeclId') or '?')
        return [s]

    def s_BreakStmt(self, n, s):
        s = s.copy()
        s.mode = 'break'
        return [s]

    def s_ContinueStmt(self, n, s):
        s = s.copy()
        s.mode = 'cont'
        return [s]

    def s_SwitchStmt(self, n, s):
        body = n.kids[-1]
        flat = []

        def add(k):
            if k.kind == 'CaseStmt':
                flat.append(('case', k.kids[0]))
                for x in k.kids[1:]:
                    add(x)
            elif k.kind == 'DefaultStmt':
                flat.append(('default', None))
                for x in k.kids:
                    add(x)
            else:
                flat.append(('stmt', k))
        for k in (body.kids if body.kind == 'CompoundStmt' else [body]):
            add(k)
        out = []
        consts = []
        for s0, v in self.ev(n.kids[0], s):
            default = None
            for i, (what, k) in enumerate(flat):
                if what == 'stmt':
                    continue
                s1 = s0.copy()
                if what == 'case':
                    c = self.ev(k, s1)[0][1]
                    if isinstance(c, Poly) and isinstance(v, Poly):
                        consts.append(c)
                        s1.ints = s1.ints + ((n.id, frozenset(atoms(v - c))),)
                        s1.equal(v - c)
                else:
                    default = i
                if contradictory(s1.facts):
                    continue
                out += self.fall(flat, i, s1)
            if default is None:
                # no case applies: only when the value can be another one
                rest = s0
                poss = [rest.copy()]
                for c in consts:
                    nxt = []
                    for p in poss:
                        for f in (v - c - num(1), c - v - num(1)):
                            q = p.copy()
                            q.know(f)
                            if not contradictory(q.facts):
                                nxt.append(q)
                    poss = nxt
                out += poss
        return self.join(s, self.prune(out))

    def fall(self, flat, i, s):
        cur = [s]
        for what, k in flat[i:]:
            if what == 'stmt':
                cur = self.run(k, cur)
        for r in cur:
            if r.mode == 'break':
                r.mode = 'run'
        return cur

    def s_OMPParallelForDirective(self, n, s):
        return self.omp(n, s)

    s_OMPForDirective = s_OMPParallelDirective = s_OMPSimdDirective = s_OMPParallelForSimdDirective = s_OMPForSimdDirective = s_OMPParallelForDirective
    s_OMPCriticalDirective = s_OMPAtomicDirective = s_OMPSingleDirective = s_OMPMasterDirective = s_OMPParallelForDirective

    def omp(self, n, s):
        b = omp_body(n)
        return self.run(b, [s]) if b is not None else [s]

    def s_AttributedStmt(self, n, s):
        return self.run(n.kids[-1], [s])

    # -- loops --------------------------------------------------------------------
    def s_ForStmt(self, n, s):
        init, cond, inc, body = for_parts(n)
        sts = [s]
        if init is not None:
            sts = self.run(init, sts)
        out = []
        for t in sts:
            out += self.loop(n, cond, inc, body, t) if t.mode == 'run' else [t]
        return out

    def s_WhileStmt(self, n, s):
        return self.loop(n, n.kids[0], None, n.kids[-1], s)

    def s_DoStmt(self, n, s):
        # the body once, then as a while loop
        out = []
        for t in self.run(n.kids[0], [s]):
            if t.mode in ('run', 'cont'):
                t.mode = 'run'
                out += self.loop(n, n.kids[1], None, n.kids[0], t)
            else:
                if t.mode == 'break':
                    t.mode = 'run'
                out.append(t)
        return out

    def assigned(self, *ns):
        ids = {}
        for n in ns:
            if n is None:
                continue
            for k in n.walk():
                t = None
                if k.kind in ('BinaryOperator', 'CompoundAssignOperator') and k.op.endswith('=') and k.op not in ('==', '<=', '>=', '!='):
                    t = strip(k.kids[0])
                elif k.kind == 'UnaryOperator' and k.op in ('++', '--', '&'):
                    t = strip(k.kids[0])
                if t is not None and t.kind == 'DeclRefExpr' and t.ref and t.ref[2] in ('VarDecl', 'ParmVarDecl'):
                    ids[t.ref[0]] = t
        return ids

    def head(self, n, s, ids, plan, t):
        """state at the beginning of a generic turn"""
        h = s.copy()
        for i, ref in ids.items():
            v0 = s.env.get(i)
            how = plan.get(i) if plan else None
            name = ref.ref[1]
            if how is None:
                if isinstance(v0, Poly) or base(ref.type) in INTS:
                    h.env[i] = atom(self.fresh(name, True))
                elif is_ptr(ref.type):
                    h.env[i] = UNK
                else:
                    h.env[i] = FLT
            elif how[0] == 'step':
                d = how[1]
                if isinstance(v0, Ptr):
                    h.env[i] = v0.add(d * t)
                else:
                    h.env[i] = v0 + d * t
            elif how[0] == 'grows':
                a = atom(self.fresh(name, True))
                h.env[i] = v0 + a
                h.know(a)
            elif how[0] == 'keep':
                h.env[i] = v0
        return h

    def turn(self, n, cond, inc, body, heads):
        """one turn from the given head states: (end states, exits, cond-false states)"""
        ends, leaves = [], []
        for h in heads:
            ins = [x for tr, x in self.cond(cond, h) if tr] if cond is not None else [h]
            for x in ins:
                x.ints = h.ints
            for r in self.run(body, ins):
                if r.mode in ('run', 'cont'):
                    r.mode = 'run'
                    if inc is not None:
                        ends += [x for x, _ in self.ev(inc, r)]
                    else:
                        ends.append(r)
                else:
                    leaves.append(r)
        return self.prune(ends), leaves

    def loop(self, n, cond, inc, body, s):
        ids = self.assigned(cond, inc, body)
        # 1. how do the variables change in a turn?
        self.mute += 1
        h0 = self.head(n, s, ids, None, None)
        for i, ref in ids.items():
            if isinstance(s.env.get(i), Ptr):
                a = self.fresh(ref.ref[1], True)
                h0.env[i] = Ptr(s.env[i].obj, atom(a), s.env[i].idx, s.env[i].data)
        n0 = len(h0.ints)
        self.guess += 1
        ends, leaves = self.turn(n, cond, inc, body, [h0])
        self.guess -= 1
        self.mute -= 1
        plan = {}
        counters = {}
        heads0 = h0.env
        local = {a for i in ids for v in [heads0.get(i)] for a in (atoms(v) if isinstance(v, Poly) else atoms(v.off) if isinstance(v, Ptr) else ())}
        before = set(s.heap)
        for i, ref in ids.items():
            v0, hv = s.env.get(i), heads0.get(i)
            ds = []
            for e in ends:
                ev_ = e.env.get(i)
                d = None
                if isinstance(hv, Poly) and isinstance(ev_, Poly):
                    d = e.norm(ev_ - hv)
                elif isinstance(hv, Ptr) and isinstance(ev_, Ptr) and ev_.obj == hv.obj and isinstance(v0, Ptr) and ev_.idx is hv.idx:
                    d = e.norm(ev_.off - hv.off)
                if d is not None and (atoms(d) & local or any('@' in a and self.born(a, h0) for a in atoms(d))):
                    d = None
                ds.append(d)
            if not ds or any(d is None for d in ds) or v0 is None or v0 in (UNK, FLT, NULL, ('uninit',)):
                continue
            if all(not (d - ds[0]) for d in ds):
                if not ds[0]:
                    plan[i] = ('keep',)
                else:
                    plan[i] = ('step', ds[0])
            elif all(d.const() in (0, 1) for d in ds) and isinstance(v0, Poly):
                counters[i] = [(d.const(), e) for d, e in zip(ds, ends)]
                plan[i] = ('grows',)
            elif all(d.const() is not None and d.const() >= 0 for d in ds) and isinstance(v0, Poly):
                plan[i] = ('grows',)
        # a way out that depends on the turn makes later turns uncertain
        exits_int = any(at & local for e in leaves for _, at in e.ints[n0:])
        tname = self.fresh('turn', exits_int)
        # readable name: the variable of the loop
        t = atom(tname)
        base_ = s.copy()
        base_.know(t)
        heads = [self.head(n, base_, ids, plan, t)]
        # counters that miss one turn: the one where the loop variable equals a fixed value
        for i, cs in counters.items():
            heads = self.split_counter(i, ids, cs, heads, s, t, plan)
        # 2. what happens to the pointer arrays in a turn?
        effects = None
        touches = any(set(e.heap) - before or any(e.heap[o].rows != s.heap[o].rows or e.heap[o].freed != s.heap[o].freed or e.heap[o].status != s.heap[o].status
                                                for o in before if o in e.heap) for e in ends)
        if touches:
            self.mute += 1
            e2, _ = self.turn(n, cond, inc, body, [h.copy() for h in heads])
            self.mute -= 1
            effects = self.effects(n, s, e2, tname, cond, heads)
            heads = [self.apply(h, effects, t) for h in heads]
        # 3. the turn itself
        ends, leaves = self.turn(n, cond, inc, body, heads)
        self.termination(n, cond, s, ends, heads, ids, plan)
        if not self.mute:
            for e in ends:
                self.turn_leaks(n, s, e, before, effects, body)
        # 4. after the loop
        out = []
        for r in leaves:
            if r.mode == 'break':
                r.mode = 'run'
            out.append(r)
        te = atom(self.fresh('turns', True))
        x = s.copy()
        x.know(te)
        h = self.head(n, x, ids, plan, te)
        count = self.count(n, cond, heads[0], tname, s) if cond is not None else None
        if effects is not None:
            h = self.apply(h, effects, count if count is not None else te)
            for o in effects['gone']:
                if o in h.heap:
                    h.heap[o] = h.heap[o].copy(status=effects['gone'][o])
        if count is not None:
            facts = [s.norm(f) for f in s.facts]
            if entails(facts, s.norm(count)):
                h = self.head(n, s, ids, plan, count)
                if effects is not None:
                    h = self.apply(h, effects, count)
                    for o in effects['gone']:
                        if o in h.heap:
                            h.heap[o] = h.heap[o].copy(status=effects['gone'][o])
                out.append(h)
                return self.join(s, self.prune(out))
        if cond is not None:
            for tr, q in self.cond(cond, h):
                if not tr:
                    q.ints = h.ints
                    out.append(q)
        return self.join(s, self.prune(out))

    def born(self, a, h):
        try:
            k = int(a.split('@')[-1].split('.')[0])
        except ValueError:
            return False
        return k > self.mark(h)

    def mark(self, h):
        # atoms numbered after those of the head state were created in the turn
        m = 0
        for v in h.env.values():
            if isinstance(v, Poly):
                for a in atoms(v):
                    if '@' in a:
                        try:
                            m = max(m, int(a.split('@')[-1].split('.')[0]))
                        except ValueError:
                            pass
        for f in h.facts:
            for a in atoms(f):
                if '@' in a:
                    try:
                        m = max(m, int(a.split('@')[-1].split('.')[0]))
                    except ValueError:
                        pass
        return m

    def split_counter(self, i, ids, cs, heads, s, t, plan):
        """v counts the turns but those where (loop variable) == E"""
        zero = [e for d, e in cs if d == 0]
        one = [e for d, e in cs if d == 1]
        v0 = s.env[i]
        # the equality that holds on the paths that do not count
        conds = None
        for e in zero:
            k = {c for c, _ in e.skips}
            conds = k if conds is None else conds & k
        for e in one:
            conds = (conds or set()) - {c for c, _ in e.skips}
        if not conds:
            out = []
            for h in heads:
                h = h.copy()
                a = h.env[i] - v0
                h.know(t - a)
                out.append(h)
            return out
        c = sorted(conds)[0]
        d = [q for x, q in zero[0].skips if x == c][0]      # E - v (or v - E) over the atoms of the dry head
        # express it over the head with turns
        out = []
        for h in heads:
            dd = d
            ok = True
            for j, ref in ids.items():
                hv = self.dry.get(j) if hasattr(self, 'dry') else None
            # the loop variable: the one with a constant step of one
            lv = [j for j, p in plan.items() if p[0] == 'step' and p[1].const() == 1 and isinstance(s.env.get(j), Poly)]
            e = self.equality_limit(c, lv, h, s)
            if e is None:
                h = h.copy()
                h.know(t - (h.env[i] - v0))
                out.append(h)
                continue
            j, lim = e
            start = s.env[j]
            facts = [s.norm(f) for f in s.facts]
            early = h.copy()
            early.env[i] = v0 + t
            early.know(lim - h.env[j])
            late = h.copy()
            late.env[i] = v0 + t - num(1)
            late.know(h.env[j] - lim - num(1))
            if entails(facts, s.norm(lim - start)):
                out += [early, late]
            else:
                h = h.copy()
                h.know(t - (h.env[i] - v0))
                out.append(h)
        return [h for h in out if not contradictory(h.facts)]

    def equality_limit(self, cid, lv, h, s):
        for n in self.stack[-1].walk():
            if n.id == cid and n.kind == 'BinaryOperator':
                for a, b in ((n.kids[0], n.kids[1]), (n.kids[1], n.kids[0])):
                    x = strip(a)
                    if x.kind == 'DeclRefExpr' and x.ref and x.ref[0] in lv:
                        self.mute += 1
                        r = self.ev(b, h.copy())
                        self.mute -= 1
                        if len(r) == 1 and isinstance(r[0][1], Poly):
                            return x.ref[0], h.norm(r[0][1])
        return None

    def count(self, n, cond, h, tname, s):
        """number of turns, when the condition bounds them by a single linear limit"""
        r = [x for tr, x in self.cond(cond, h.copy()) if tr]
        if len(r) != 1:
            return None
        lim = []
        had = {f.text() for f in h.facts}
        for f in r[0].facts:
            if f.text() in had:
                continue
            k = f.get((tname,), 0)
            if any(tname in m and m != (tname,) for m in f):
                return None
            if k == -1:
                lim.append(Poly({m: c for m, c in f.items() if m != (tname,)}) + num(1))
        return lim[0] if len(lim) == 1 else None

    def effects(self, n, s, ends, tname, cond, heads):
        """what a turn does to buffers that live longer than it: rows stored and released, as ranges that grow with the turns"""
        eff = {'rows': [], 'freed': [], 'mixed': set(), 'gone': {}}
        before = set(s.heap)
        per = []
        for e in ends:
            rows, frees = {}, {}
            for o in before:
                a, b = s.heap[o], e.heap.get(o)
                if b is None:
                    continue
                if len(b.rows) > len(a.rows):
                    rows[o] = b.rows[len(a.rows):]
                if len(b.freed) > len(a.freed):
                    frees[o] = b.freed[len(a.freed):]
                if a.status != b.status and b.status in ('freed', 'dropped'):
                    eff['gone'][o] = b.status
            per.append((rows, frees, e))
        names = {o for rows, frees, e in per for o in rows}
        for o in sorted(names):
            got = [rows.get(o) for rows, frees, e in per]
            if any(g is None or len(g) != 1 for g in got):
                eff['mixed'].add(o)
                continue
            lo, hi, ptr = got[0][0]
            e = per[0][2]
            lo = e.norm(lo)
            k = lo.get((tname,), 0)
            if k not in (1, -1) or any(tname in m and m != (tname,) for m in lo) or any((e2.norm(g[0][0]) - lo) for g, (_, _, e2) in zip(got, per)):
                eff['mixed'].add(o)
                continue
            # index x = c + k*turn, so turn = (x - c)*k
            c = Poly({m: q for m, q in lo.items() if m != (tname,)})
            turn = (atom('#') - c).scale(k)
            if isinstance(ptr, Ptr):
                q = self.objs[ptr.obj]
                if ptr.obj not in before and q.index is None and q.kind == 'heap':
                    fam = self.family(q, tname, turn, e, n)
                    st_ = e.heap[ptr.obj].status
                    for g, (_, _, e2) in zip(got, per):
                        p2 = g[0][2]
                        if isinstance(p2, Ptr) and p2.obj in e2.heap and e2.heap[p2.obj].status == 'maybe':
                            st_ = 'maybe'
                    ptr = Ptr(fam.id, num(0), atom('#'))
                    eff['rows'].append((o, c, k, ptr, fam, st_))
                    continue
                ptr = Ptr(ptr.obj, subst(e.norm(ptr.off), tname, turn), subst(e.norm(ptr.idx), tname, turn) if ptr.idx is not None else None, ptr.data)
            eff['rows'].append((o, c, k, ptr, None, None))
        names = {o for rows, frees, e in per for o in frees}
        for o in sorted(names):
            got = [frees.get(o) for rows, frees, e in per]
            if any(g is None or len(g) != 1 for g in got):
                eff['mixed'].add(o)
                continue
            lo = per[0][2].norm(got[0][0][0])
            k = lo.get((tname,), 0)
            if k not in (1, -1) or any(tname in m and m != (tname,) for m in lo):
                eff['mixed'].add(o)
                continue
            c = Poly({m: q for m, q in lo.items() if m != (tname,)})
            eff['freed'].append((o, c, k))
        return eff

    def family(self, q, tname, turn, e, n):
        key = ('family', q.node.id, id(self.stack[-1]), tname)
        f = Obj('f%s' % q.id, 'heap', q.node, q.func, None)
        f.name = q.name
        f.index = '#'
        f.size = subst(e.norm(q.size), tname, turn) if q.size is not None else None
        self.objs[f.id] = f
        return f

    def apply(self, h, eff, t):
        """the effect of t turns"""
        h = h.copy()
        for o, c, k, ptr, fam, status in eff['rows']:
            if o not in h.heap:
                continue
            if fam is not None:
                h.heap[fam.id] = Rec(status)
            lo, hi = (c, c + t) if k == 1 else (c - t + num(1), c + num(1))
            r = h.heap[o]
            h.heap[o] = r.copy(rows=r.rows + ((lo, hi, ptr),))
        for o, c, k in eff['freed']:
            if o not in h.heap:
                continue
            lo, hi = (c, c + t) if k == 1 else (c - t + num(1), c + num(1))
            r = h.heap[o]
            h.heap[o] = r.copy(freed=r.freed + ((lo, hi),))
        for o in eff['mixed']:
            if o in h.heap:
                h.heap[o] = h.heap[o].copy(status='mixed', rows=())
        return h

    def turn_leaks(self, n, s, e, before, eff, body):
        stored = set()
        for o, r in e.heap.items():
            for lo, hi, ptr in r.rows:
                if isinstance(ptr, Ptr) and (o in before or True):
                    stored.add(ptr.obj)
        for o, r in e.heap.items():
            ob = self.objs[o]
            if o in before or ob.kind not in ('heap', 'array') or ob.index is not None or o in stored:
                continue
            if r.status in ('held', 'maybe'):
                key = '%s:%s' % (ob.func.name if ob.func else self.fn(), self.label(ob))
                self.sink('leak', ob.node, '%s:%s' % (self.cf.rel, key), '%s is allocated in every turn of a loop and not released in it' % self.label(ob))
                self.lost_rows(n, ob, e, 'is lost')
        if eff is not None:
            for o, status in eff['gone'].items():
                self.report('twice', n, 'release ' + self.label(o), '%s is released in every turn of a loop' % self.label(o))

    def termination(self, n, cond, s, ends, heads, ids, plan):
        if self.mute:
            return
        if cond is None or not ends:
            return
        what = 'loop on %s ends' % text(cond)
        for x in comparisons(cond):
            if x.op not in ('<', '<=', '>', '>=', '!='):
                continue
            a, b = strip(x.kids[0]), strip(x.kids[1])
            # the difference right - left has to shrink by at least one per turn
            self.mute += 1
            verdicts = []
            for h in heads[:1]:
                l0, r0 = self.ev(a, h.copy()), self.ev(b, h.copy())
                for e in ends:
                    l1, r1 = self.ev(a, e.copy()), self.ev(b, e.copy())
                    if len(l0) != 1 or len(r0) != 1 or len(l1) != 1 or len(r1) != 1:
                        continue
                    vs = [v[0][1] for v in (l0, r0, l1, r1)]
                    if not all(isinstance(v, Poly) for v in vs):
                        continue
                    before_, after = vs[1] - vs[0], vs[3] - vs[2]
                    d = (before_ - after) if x.op in ('<', '<=', '!=') else (after - before_)
                    verdicts.append((e, e.norm(d)))
            self.mute -= 1
            if not verdicts:
                continue
            for e, d in verdicts:
                self.check(e, 'ends', n, d - num(1), text(cond), '%s gets closer to its limit in every turn' % what)
            return
        self.doubt('ends', n, what)


def rowtext(rows):
    return ';'.join(','.join(x.text() if isinstance(x, Poly) else repr(x) for x in r) for r in rows)


def cond_ids(c):
    return {x.id for x in c.walk()} if c is not None else set()


def comparisons(c):
    c = strip(c)
    if c.kind == 'BinaryOperator' and c.op == '&&':
        return comparisons(c.kids[0]) + comparisons(c.kids[1])
    return [c] if c.kind == 'BinaryOperator' else []


def is_expr(n):
    k = n.kind or ''
    return k.endswith(('Expr', 'Operator', 'Literal'))


def for_parts(n):
    """clang leaves out absent parts of a for statement in the kids we keep: they are told apart by what they are"""
    kids = list(n.kids)
    body = kids[-1]
    rest = kids[:-1]
    parts = n.raw.get('_parts')
    if parts is not None:
        it = iter(rest)
        got = [next(it) if p else None for p in parts[:4]]
        return got[0], got[2], got[3], body
    init = cond = inc = None
    if len(rest) == 3:
        init, cond, inc = rest
    elif len(rest) == 2:
        if rest[0].kind == 'DeclStmt' or (rest[0].kind == 'BinaryOperator' and rest[0].op == '='):
            init, x = rest
        else:
            cond, inc = rest
            x = None
        if x is not None:
            if x.kind == 'BinaryOperator' and x.op in ('<', '>', '<=', '>=', '!=', '==', '&&'):
                cond = x
            else:
                inc = x
    elif len(rest) == 1:
        cond = rest[0]
    return init, cond, inc, body


def omp_body(n):
    """the statement an OpenMP directive applies to"""
    for k in n.kids:
        if k.kind == 'CapturedStmt':
            for x in k.kids:
                if x.kind == 'CapturedDecl':
                    for y in x.kids:
                        if y.kind == 'CapturedStmt':
                            return omp_body_of(y)
                        if y.kind and y.kind.endswith('Stmt'):
                            return y
                if x.kind and x.kind.endswith('Stmt') and x.kind != 'CapturedStmt':
                    return x
    for k in n.kids:
        if k.kind and k.kind.endswith('Stmt') and k.kind != 'CapturedStmt':
            return k
    return None


def omp_body_of(c):
    for x in c.kids:
        if x.kind == 'CapturedDecl':
            for y in x.kids:
                if y.kind and y.kind.endswith('Stmt'):
                    return y
    return None


def nice(p):
    t = p.text()
    out = []
    for w in t.replace('*', ' * ').split(' '):
        out.append(w.split('@')[0] if '@' in w else w)
    return ' '.join(out).replace(' * ', '*')


def extension_functions(cf):
    """functions that Python calls: those in the method tables; (function, flags)"""
    out = []
    for g in cf.globals.values():
        if 'PyMethodDef' not in g.type:
            continue
        for il in g.walk():
            if il.kind != 'InitListExpr' or il is g or not il.kids or il.kids[0].kind == 'InitListExpr':
                continue
            fs = [x for x in il.walk() if x.kind == 'DeclRefExpr' and x.ref and x.ref[2] == 'FunctionDecl' and x.ref[1] in cf.funcs]
            if fs:
                flags = il.kids[2] if len(il.kids) > 2 else None
                out.append((cf.funcs[fs[0].ref[1]], flags))
    return out
