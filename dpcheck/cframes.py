"""Which basis the indices of the arrays in a C kernel refer to: every axis of every array, and every loop variable, has a sort
('x' Cartesian component, 's' component along a lattice vector); a variable used on two axes makes their sorts equal.
Only a Cartesian axis that turns out to be the same as a lattice axis is reported."""
from .csrc import c_files, callee, strip
from .cunits import recursive, integer, pointer

KEYS = {'trajectory': ('n', 'x'), 'positions': ('x',), 'position': ('x',), 'cell': ('s', 'x')}
PASS = {'PyArray_FROM_OTF', 'PyArray_DATA', 'PyArray_Return', 'PyArray_FROM_O', 'PyArray_ContiguousFromObject', 'PyArray_BYTES',
        'PyArray_FROMANY', 'PyArray_GETCONTIGUOUS'}
ROUND = {'round', 'rint', 'floor', 'ceil', 'nearbyint', 'lround', 'trunc', 'nearbyint', 'llround', 'lrint'}
WORDS = {'x': 'Cartesian', 's': 'lattice', 'n': 'step'}


class Sort:
    """union-find node"""
    __slots__ = ('up', 'tag', 'off')

    def __init__(self, tag=None):
        self.up, self.tag, self.off = None, tag, False

    def find(self):
        r = self
        while r.up is not None:
            r = r.up
        return r


class Arr:
    """array: sorts of the axes (made on use)"""
    def __init__(self, axes=None):
        self.axes = axes if axes is not None else {}
        self.n = len(axes) if axes else None
        self.alloc = None

    def axis(self, k):
        return self.axes.setdefault(k, Sort())


class Row:
    """array[i] ... with the first indices given"""
    def __init__(self, arr, depth, idx=()):
        self.arr, self.depth, self.idx = arr, depth, tuple(idx)

    @property
    def last(self):
        return self.idx[-1] if self.idx else None

    def tags(self):
        return {i.find().tag if i is not None and not i.find().off else None for i in self.idx}


class Ix:
    """an integer: terms (sort, whether it is multiplied by something)"""
    def __init__(self, terms):
        self.terms = terms


class CFrames:
    def __init__(self, cf):
        self.cf = cf
        self.problems, self.decided = [], {}
        self.env, self.rets, self.fn, self.stack, self.names = {}, [], None, [], {}
        self.recursive = recursive(cf)
        self.confused = {}

    def bad(self, rule, n, text):
        self.problems.append((rule, self.cf, self.fn, n, text))

    def ok(self, rule, n):
        self.decided.setdefault(rule, set()).add('%s:%s line %s' % (self.cf.rel, self.fn.name, n.line))

    def unify(self, a, b, n, what='product'):
        a, b = a.find(), b.find()
        if a is b:
            if a.tag in ('x', 's'):
                self.ok(what, n)
            return
        if a.tag and b.tag and a.tag != b.tag:
            if not (a.off or b.off) and {a.tag, b.tag} == {'x', 's'}:
                self.bad(what, n, 'uses one index for a Cartesian axis and for a lattice axis')
            return
        if a.tag and b.tag and a.tag in ('x', 's'):
            self.ok(what, n)
        b.up = a
        a.tag = a.tag or b.tag
        a.off = a.off or b.off

    # ------------------------------------------------ functions
    def run(self, f, args):
        save = self.env, self.rets, self.fn
        self.env, self.rets, self.fn = {}, [], f
        self.stack.append(f.name)
        for p, a in zip(self.cf.params(f), args or []):
            self.env[p.id] = a
        try:
            self.stmt(self.cf.body(f))
            rets = [r for r in self.rets if r is not None]
            rets.sort(key=lambda r: len(r.axes) if isinstance(r, Arr) else 0)
        finally:
            self.env, self.rets, self.fn = save
            self.stack.pop()
        return rets[-1] if rets else None

    def twisted(self):
        """arrays that the function indexes with [i][j] and with [j][i]"""
        f = self.fn
        if f.id not in self.confused:
            seen, out = set(), set()
            for x in f.walk():
                if x.kind == 'ArraySubscriptExpr':
                    y = strip(x.kids[0])
                    if y.kind == 'ArraySubscriptExpr':
                        r, i, j = (strip(z) for z in (y.kids[0], y.kids[1], x.kids[1]))
                        if all(z.kind == 'DeclRefExpr' and z.ref for z in (r, i, j)):
                            t = r.ref[0], i.ref[0], j.ref[0]
                            seen.add(t)
                            if (t[0], t[2], t[1]) in seen:
                                out.add(t[0])
            self.confused[f.id] = out
        return self.confused[f.id]

    def stmt(self, n):
        k = n.kind or 'NullStmt'
        if k == 'DeclStmt':
            for d in n.kids:
                if d.kind == 'VarDecl':
                    self.decl(d)
        elif k == 'ReturnStmt':
            if n.kids:
                self.rets.append(self.ev(n.kids[0]))
        elif k == 'ForStmt':
            # a counter that starts again is a new index
            for x in n.kids[0].walk() if n.kids and n.kids[0].kind else ():
                if x.kind == 'BinaryOperator' and x.op == '=':
                    t = strip(x.kids[0])
                    if t.kind == 'DeclRefExpr' and t.ref:
                        self.env[t.ref[0]] = Ix([(Sort(), False)])
            for c in n.kids:
                self.stmt(c)
        elif k.endswith('Stmt') or k.startswith('OMP') or k == 'CapturedDecl':
            for c in n.kids:
                self.stmt(c)
        elif k.endswith('Decl') or k.endswith('Attr'):
            pass
        else:
            self.ev(n)

    def decl(self, d):
        init = [x for x in d.kids if not x.kind.endswith('Attr')]
        if 'char *[' in d.type:
            self.names[d.id] = [s.value.strip('"') for s in d.walk() if s.kind == 'StringLiteral' and s.value]
            return
        v = self.ev(init[-1]) if init else None
        if integer(d.type):
            if isinstance(v, Ix) and v.terms:
                self.env[d.id] = v
            else:
                self.env[d.id] = Ix([(Sort(), False)])
        elif pointer(d.type):
            self.env[d.id] = v if isinstance(v, (Arr, Row)) else Arr()
        else:
            self.env[d.id] = v

    def var(self, n):
        i = n.ref[0]
        if i not in self.env:
            self.env[i] = Ix([(Sort(), False)]) if integer(n.type) else Arr() if pointer(n.type) or '*' in n.type else None
        return self.env[i]

    def ev(self, n):
        n = strip(n)
        if n is None or n.kind is None:
            return None
        k = n.kind
        if k == 'DeclRefExpr':
            return self.var(n) if n.ref else None
        if k == 'IntegerLiteral':
            return Ix([])
        if k == 'ArraySubscriptExpr':
            b, i = self.ev(n.kids[0]), self.ev(n.kids[1])
            t = strip(n.kids[0])
            if t.kind == 'DeclRefExpr' and t.ref and t.ref[0] in self.twisted() and isinstance(b, Arr):
                b.axes.clear()          # transposed in place, or a diagonal: nothing is known of its axes
                return Row(Arr(), 1, (None,))
            return self.index(b, i, n)
        if k == 'UnaryOperator':
            v = self.ev(n.kids[0])
            if n.op == '*' and isinstance(v, (Arr, Row)):
                return self.index(v, Ix([]), n)
            if n.op in ('&', '++', '--', '-', '+'):
                return v
            return None
        if k == 'BinaryOperator':
            return self.binary(n)
        if k == 'CompoundAssignOperator':
            a, b = self.ev(n.kids[0]), self.ev(n.kids[1])
            if n.op in ('+=', '-='):
                self.element_sum(a, b, n)
            return a
        if k == 'ConditionalOperator':
            self.ev(n.kids[0])
            a, b = self.ev(n.kids[1]), self.ev(n.kids[2])
            return a if a is not None else b
        if k == 'CallExpr':
            return self.call(n)
        for c in n.kids:
            self.stmt(c) if c.kind and c.kind.endswith('Stmt') else self.ev(c)
        return None

    def index(self, b, i, n):
        if not isinstance(b, (Arr, Row)):
            return None
        arr, depth, idx = (b, 0, ()) if isinstance(b, Arr) else (b.arr, b.depth, b.idx)
        if not isinstance(i, Ix):
            return Row(arr, depth + 1, idx + (None,))
        flat = [t for t in i.terms if t[1]]
        if flat and depth == 0:
            # a flat array with its rows one after another
            if len(flat) == 1 and len(i.terms) <= 2:
                self.unify(arr.axis(0), flat[0][0], n)
                rest = [t for t in i.terms if not t[1]]
                if rest:
                    self.unify(arr.axis(1), rest[0][0], n)
                return Row(arr, 2, [flat[0][0], rest[0][0] if rest else None])
            return Row(arr, 2, [None, None])
        if not i.terms:
            return Row(arr, depth + 1, idx)
        if len(i.terms) == 1:
            self.unify(arr.axis(depth), i.terms[0][0], n)
            return Row(arr, depth + 1, idx + (i.terms[0][0],))
        return Row(arr, depth + 1, idx + (None,))

    def binary(self, n):
        op = n.op
        a, b = self.ev(n.kids[0]), self.ev(n.kids[1])
        t = strip(n.kids[0])
        if op == '=':
            if t.kind == 'DeclRefExpr' and t.ref:
                if integer(t.type):
                    self.env[t.ref[0]] = b if isinstance(b, Ix) and b.terms else self.env.get(t.ref[0]) or Ix([(Sort(), False)])
                elif isinstance(b, (Arr, Row)):
                    self.env[t.ref[0]] = b
                else:
                    self.env[t.ref[0]] = b if not pointer(t.type) else self.env.get(t.ref[0]) or Arr()
            elif pointer(t.type) and isinstance(a, Row) and isinstance(b, Row) and a.depth == 1 and b.depth == 1 and a.arr is not b.arr:
                # rows that point into another array
                self.unify(a.arr.axis(1), b.arr.axis(1), n)
            else:
                self.element_sum(a, b, n)
            return b
        if isinstance(a, (Arr, Row)) and isinstance(b, Ix) and op in '+-' and pointer(n.type):
            arr, depth = (a, 0) if isinstance(a, Arr) else (a.arr, a.depth)
            flat = [s for s in b.terms if s[1]]
            if depth == 0 and len(flat) == 1 and len(b.terms) == 1:
                self.unify(arr.axis(0), flat[0][0], n)
                return Row(arr, 1, [flat[0][0]])
            return None
        if isinstance(a, Ix) and isinstance(b, Ix):
            if op in ('+', '-'):
                return Ix(a.terms + b.terms)
            if op == '*':
                loops = [t for t in a.terms + b.terms]
                if not a.terms or not b.terms:
                    return Ix(loops)
                # the counter is the factor that is not an extent: decided by the caller of the product
                va, vb = self.counter(n.kids[0]), self.counter(n.kids[1])
                if va and not vb:
                    return Ix([(s, True) for s, _ in a.terms])
                if vb and not va:
                    return Ix([(s, True) for s, _ in b.terms])
                return None
            if op in ('==', '!=') and len(a.terms) == len(b.terms) == 1 and self.counter(n.kids[0]) and self.counter(n.kids[1]):
                self.unify(a.terms[0][0], b.terms[0][0], n)
                return None
            return None
        if op in ('+', '-'):
            self.element_sum(a, b, n)
            return a if isinstance(a, Row) else b if isinstance(b, Row) else None
        return None

    def element_sum(self, a, b, n):
        """elements that are added are components along the same axis"""
        if isinstance(a, Row) and isinstance(b, Row):
            p, q = a.tags(), b.tags()
            if None not in p | q and (p - {'n'}, q - {'n'}) in (({'x'}, {'s'}), ({'s'}, {'x'})):
                self.bad('sum', n, 'combines a Cartesian component and a component along a lattice vector')

    def counter(self, n):
        """the expression is a variable that a loop counts (or a parameter that is given one)"""
        n = strip(n)
        if n.kind != 'DeclRefExpr' or not n.ref:
            return False
        f = self.fn
        ids = {n.ref[0]}
        for x in f.walk():
            if x.kind in ('UnaryOperator',) and x.op in ('++', '--') or x.kind == 'CompoundAssignOperator':
                t = strip(x.kids[0])
                if t.kind == 'DeclRefExpr' and t.ref and t.ref[0] in ids:
                    return True
        return n.ref[0] in self.counters

    counters = frozenset()

    def call(self, n):
        name = callee(n)
        args = n.kids[1:]
        if name and name.startswith('PyArg_Parse'):
            ws = None
            for x in args:
                s = strip(x)
                if s.kind == 'DeclRefExpr' and s.ref and s.ref[0] in self.names:
                    ws = self.names[s.ref[0]]
            outs = [strip(x) for x in args]
            outs = [strip(o.kids[0]) for o in outs if o.kind == 'UnaryOperator' and o.op == '&']
            for w, o in zip(ws or [], outs):
                t = KEYS.get(w.lower())
                if t is not None and o.kind == 'DeclRefExpr':
                    self.env[o.ref[0]] = Arr({i: Sort(c) for i, c in enumerate(t)})
            return None
        vs = [self.ev(x) for x in args]
        if name is None:
            from .cmach import API
            x = strip(n.kids[0])
            while x is not None and x.kind == 'UnaryOperator' and x.kids:
                x = strip(x.kids[0])
            if x is not None and x.kind == 'ArraySubscriptExpr':
                k = strip(x.kids[1])
                if k.kind == 'IntegerLiteral' and API.get(int(k.value)) in ('FromAny', 'Return', 'NewCopy') and vs:
                    return vs[0]
            return None
        if name in PASS and vs:
            return vs[0]
        if name in ('creal', 'conj', 'fabs', '_Cbuild') and vs:
            return vs[0]
        if name in ROUND and vs:
            v = vs[0]
            if isinstance(v, Row):
                t = v.tags() - {'n'}
                if t == {'x'}:
                    self.bad('round', n, 'rounds a Cartesian component to a whole number')
                elif t == {'s'}:
                    self.ok('round', n)
            return v
        f = self.cf.funcs.get(name)
        if f is not None and name not in self.stack and self.cf.body(f) is not None:
            if name in self.recursive:
                return None
            save = self.counters
            ps = self.cf.params(f)
            self.counters = save | {p.id for p, x in zip(ps, args) if integer(p.type) and self.counter(x)}
            try:
                vs = [Ix([(Sort(), False)]) if isinstance(v, Ix) and p.id not in self.counters else v for p, v in zip(ps, vs)]
                return self.run(f, vs)
            finally:
                self.counters = save
        return Arr() if '*' in n.type else None


def analyse():
    """[(file, function or None, CFrames or None)]"""
    from .cmach import extension_functions
    out = []
    for cf in c_files():
        if not cf.ok:
            out.append((cf, None, None))
            continue
        for f, flags in extension_functions(cf):
            words = {s.value.strip('"').lower() for s in f.walk() if s.kind == 'StringLiteral' and s.value}
            if 'cell' not in words:
                continue
            A = CFrames(cf)
            r = A.run(f, None)
            if isinstance(r, Arr):
                A.fn = f
                A.unify(r.axis(1), Sort('x'), f, 'result')
            out.append((cf, f, A))
    return out
