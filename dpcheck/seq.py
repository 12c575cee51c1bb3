"""Symbolic lengths of sequences: path-enumerating abstract execution of a function on its syntax tree.

A value is
  NONE                     the None object
  ('seq', base, sel, tag)  one element per step; base names the set of steps, sel is the cuts made since
  ('acc', key)             a list (or a memory mapped array) being filled; its count is in the state
  ('h5',)                  an open HDF5 file
  ('const', v)             a literal
  ('op', text, nn)         anything else; nn = known not to be None
The loops are executed to a fixed point over the counts of the lists filled in them (normalised: only differences and
small absolute values are kept), and over monotone comparisons of the step counter, so that a `step skipped' branch is
only taken before any step was stored.  No value of the program is computed and nothing is run.
"""
import ast

from .names import dotted

NONE = ('none',)
KEEP = {'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'list', 'tuple', 'real', 'complex128', 'copy', 'float64', 'require', 'deepcopy',
        'conj', 'conjugate', 'abs', 'multiply', 'divide', 'around', 'round', 'squeeze'}
KEEPM = {'copy', 'astype', 'conj', 'conjugate', 'tolist', 'round', 'view'}
MAXSTATES = 4000


class TooMany(Exception):
    pass


def lin(e, sub):
    """linear normal form {atom text: coefficient} (atom '' is the constant); sub: name -> expression or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return {'': e.value} if e.value else {}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return {k: -v for k, v in lin(e.operand, sub).items()}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
        return lin(e.operand, sub)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = lin(e.left, sub), lin(e.right, sub)
        s = 1 if isinstance(e.op, ast.Add) else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        a, b = lin(e.left, sub), lin(e.right, sub)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {''}:
                c = x.get('', 0)
                return {k: v * c for k, v in y.items() if v * c}
    if isinstance(e, ast.Name):
        d = sub(e.id)
        if d is not None:
            return lin(d, sub)
        return {e.id: 1}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
        return lin(e.args[0], sub)
    return {ast.unparse(e): 1}


def ltext(d):
    return '+'.join('%s*%s' % (v, k) if k else str(v) for k, v in sorted(d.items())) or '0'


def lsub(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


class State:
    __slots__ = ('env', 'cons', 'counts', 'phase', 'flags', 'path')

    def __init__(self, env, cons=(), counts=(), phase=(), flags=(), path=()):
        self.env, self.cons, self.counts, self.phase = dict(env), dict(cons), dict(counts), dict(phase)
        self.flags = frozenset(flags)
        self.path = tuple(path)

    def copy(self):
        return State(self.env, self.cons, self.counts, self.phase, self.flags, self.path)

    def key(self, cons=True):
        return (tuple(sorted(self.env.items(), key=str)), tuple(sorted(self.cons.items())) if cons else (),
                tuple(sorted(self.counts.items())), tuple(sorted(self.phase.items())), self.flags)


def merge(states):
    """states equal but for what was assumed are one, with the common assumptions"""
    out = {}
    for s in states:
        k = s.key(False)
        if k in out:
            o = out[k]
            o.cons = {x: v for x, v in o.cons.items() if s.cons.get(x) == v}
        else:
            out[k] = s.copy()
    if len(out) > MAXSTATES:
        raise TooMany()
    return list(out.values())


class Exec:
    """Exec(prog, func).run() fills self.returns with (state, return statement)"""

    def __init__(self, prog, func, world, watch=(), depth=0):
        self.prog, self.func, self.mod, self.w = prog, func, func.mod, world
        self.node = func.node
        self.watch = set(watch)
        self.returns = []
        self.events = []          # (kind, node, state, data)
        self.depth = depth
        self.calls = set()
        self.loops = []           # information of the enclosing loops
        self.defs = {}
        self.aug = set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(n.value if isinstance(n, (ast.AnnAssign, ast.NamedExpr)) else None)
            elif isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if isinstance(i.optional_vars, ast.Name):
                        self.defs.setdefault(i.optional_vars.id, []).append(None)
        self.params = set(func.params()) | {a.arg for a in self.node.args.kwonlyargs}
        self.bound = {}

    # -- names ----------------------------------------------------------
    def sub(self, name):
        """definition of a name assigned once from an expression of other unchanging names"""
        ds = self.defs.get(name)
        if name in self.params or not ds or len(ds) != 1 or ds[0] is None:
            return None
        v = ds[0]
        if not isinstance(v, (ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant)):
            return None
        for n in ast.walk(v):
            if isinstance(n, ast.Name) and len(self.defs.get(n.id, ())) > 1:
                return None
            if isinstance(n, ast.Name) and n.id == name:
                return None
            if isinstance(n, (ast.Call, ast.Subscript)):
                return None
        if isinstance(v, ast.Constant) and not isinstance(v.value, (int, float)):
            return None
        return v

    def run(self, env=None, cons=None):
        st = State(env or {}, cons or {})
        a = self.node.args
        for p in self.params:
            st.env.setdefault(p, ('op', p, False))
        out = self.block(self.node.body, [st])
        for s in out:
            self.returns.append((s, None))
        return self.returns

    # -- values ---------------------------------------------------------
    def ev(self, e, st):
        if e is None:
            return NONE
        if isinstance(e, ast.Constant):
            return NONE if e.value is None else ('const', e.value)
        if isinstance(e, ast.Name):
            return st.env.get(e.id, ('op', e.id, False))
        if isinstance(e, (ast.List,)) and not e.elts:
            return ('newlist',)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self':
                return st.env.get('self.' + e.attr, ('op', 'self.' + e.attr, False))
            v = self.ev(e.value, st)
            if e.attr in ('real', 'imag') and v[0] in ('seq', 'acc'):
                return v
            return ('op', ast.unparse(e), True)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, st)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            if isinstance(e.op, ast.Add) and a[0] == 'seq' and b[0] in ('seq', 'newlist') and isinstance(e.left, ast.List):
                return ('op', ast.unparse(e), True)
            if a[0] == 'seq' and b[0] == 'seq':
                return a if a[:3] == b[:3] else ('op', ast.unparse(e), True)
            if a[0] == 'seq':
                return a
            if b[0] == 'seq':
                return b
            return ('op', ast.unparse(e), True)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st)
            return v if v[0] == 'seq' else ('op', ast.unparse(e), True)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) == 1 and not e.generators[0].ifs:
                return self.iterlen(e.generators[0].iter, st)
            return ('op', ast.unparse(e)[:60], True)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Compare, ast.JoinedStr)):
            return ('op', ast.unparse(e)[:60], True)
        return ('op', ast.unparse(e)[:60], False)

    def canon(self, e, st):
        """text of an expression with literals put in for the names that hold one"""
        class T(ast.NodeTransformer):
            def visit_Name(s, n):
                v = st.env.get(n.id)
                if v is not None and v[0] == 'const':
                    return ast.Constant(value=v[1])
                return n
        return ast.unparse(T().visit(ast.parse(ast.unparse(e), mode='eval').body))

    def iterlen(self, it, st):
        """sequence with one element per element of an iterable"""
        if isinstance(it, ast.Call):
            f = (dotted(it.func) or '').split('.')[-1]
            if f == 'enumerate' and it.args or f == 'reversed' and it.args:
                return self.iterlen(it.args[0], st)
            if f in ('range', 'arange', 'xrange') and len(it.args) == 1 and not [k for k in it.keywords if k.arg != 'dtype']:
                return self.lenof(it.args[0], st)
            if f in ('range', 'arange') and len(it.args) == 2 and isinstance(it.args[0], ast.Constant) and it.args[0].value == 0:
                return self.lenof(it.args[1], st)
            if f in ('range', 'arange', 'linspace', 'xrange'):
                return ('seq', 'n:' + self.canon(it, st), (), None)
            if f == 'zip' and it.args:
                return self.iterlen(it.args[0], st)
        v = self.ev(it, st)
        if v[0] == 'seq':
            return v
        return ('op', ast.unparse(it)[:60], True)

    def lenof(self, e, st):
        """the sequence whose length the expression is"""
        v = None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            for x, c in ((e.left, e.right), (e.right, e.left)):
                if isinstance(c, ast.Constant) and isinstance(c.value, int) and c.value and not (x is e.right and isinstance(e.op, ast.Sub)):
                    v = self.lenof(x, st)
                    if v[0] == 'seq' and not v[2]:
                        return ('seq', '%s%+d' % (v[1], c.value if isinstance(e.op, ast.Add) else -c.value), (), None)
                    v = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            v = self.ev(e.args[0], st)
        elif isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and \
                isinstance(e.slice, ast.Constant) and e.slice.value == 0:
            v = self.ev(e.value.value, st)
        elif isinstance(e, ast.Name):
            w = st.env.get(e.id)
            if w is not None and w[0] == 'len':
                return w[1]
            return ('seq', 'n:' + e.id, (), None)
        if v is None:
            return ('seq', 'n:' + self.canon(e, st), (), None)
        return v if v[0] in ('seq', 'acc') else ('op', ast.unparse(e)[:60], True)

    def subscript(self, e, st):
        v = self.ev(e.value, st)
        if v == ('h5',) and not isinstance(e.slice, ast.Slice):
            k = self.ev(e.slice, st)
            return ('seq', 'file', (), k[1] if k[0] == 'const' else None)
        if v[0] not in ('seq', 'acc'):
            return ('op', ast.unparse(e)[:60], True)
        s = e.slice.elts[0] if isinstance(e.slice, ast.Tuple) and e.slice.elts else e.slice
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return v
        if isinstance(s, ast.Slice):
            lo, hi, step = s.lower, s.upper, s.step
            if hi is not None and lo is None and step is None:
                t = self.explicit_len(hi, st)
                if t is not None:
                    return ('upto', v, t) if v[0] == 'acc' else (v if v[:3] == t[:3] else ('upto', v, t))
            lt = ltext(lin(lo, self.sub)) if lo is not None else ''
            ht = ltext(lin(hi, self.sub)) if hi is not None and not (isinstance(hi, ast.Constant) and hi.value is None) else ''
            if hi is not None:
                hv = self.ev(hi, st)
                if hv == NONE or isinstance(hi, ast.Name) and st.cons.get('none:' + hi.id) is True:
                    ht = ''
            stt = ast.unparse(step) if step is not None else ''
            if lt in ('', '0') and not ht and stt in ('', '1'):
                return v
            if v[0] == 'acc':
                return ('op', ast.unparse(e)[:60], True)
            return ('seq', v[1], v[2] + ((lt, ht, stt),), v[3])
        if isinstance(s, (ast.Constant, ast.UnaryOp)):
            return ('op', ast.unparse(e)[:60], True)
        if v[0] == 'seq':
            if isinstance(s, ast.Name):
                sv = st.env.get(s.id)
                if sv is not None and sv[0] == 'slice':
                    return ('seq', v[1], v[2] + (sv[1],), v[3])
                return ('seq', v[1], v[2] + (('[%s]' % self.canon(s, st), '', ''),), v[3]) if len(self.defs.get(s.id, ())) == 1 and \
                    not isinstance(self.defs[s.id][0], ast.Constant) and self.defs[s.id][0] is not None else ('op', ast.unparse(e)[:60], True)
        return ('op', ast.unparse(e)[:60], True)

    def explicit_len(self, e, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' or \
                isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
            v = self.lenof(e, st)
            return v if v[0] in ('seq', 'acc') else None
        if isinstance(e, ast.Name):
            w = st.env.get(e.id)
            if w is not None and w[0] == 'len':
                return w[1]
        return None

    def call(self, e, st):
        d = dotted(e.func) or ''
        last = d.split('.')[-1] if d else (e.func.attr if isinstance(e.func, ast.Attribute) else '')
        if last == 'list' and not e.args and not e.keywords:
            return ('newlist',)
        if self.w.full(self.mod, e.func) in ('h5py.File',):
            return ('h5',)
        if last in ('memmap', 'open_memmap'):
            return ('newmap', e)
        if last == 'len' and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            return ('len', v) if v[0] in ('seq', 'acc') else ('op', ast.unparse(e), True)
        if last in ('arange', 'linspace', 'range') and e.args:
            return self.iterlen(e, st)
        if last == 'slice' and 1 <= len(e.args) <= 3:
            a = list(e.args)
            if len(a) == 1:
                a = [None, a[0]]
            a += [None] * (3 - len(a))
            t = []
            for x in a:
                if x is None or isinstance(x, ast.Constant) and x.value is None or isinstance(x, ast.Name) and \
                        (st.cons.get('none:' + x.id) is True or self.ev(x, st) == NONE):
                    t.append('')
                else:
                    t.append(ltext(lin(x, self.sub)))
            return ('slice', tuple(t))
        if isinstance(e.func, ast.Attribute) and last in KEEPM and e.func.attr == last:
            v = self.ev(e.func.value, st)
            if v[0] in ('seq', 'acc', 'upto'):
                return v
        if isinstance(e.func, ast.Attribute) and last == 'get' and e.args:
            v = self.ev(e.func.value, st)
            if v == ('h5',):
                k = self.ev(e.args[0], st)
                return ('seq', 'file', (), k[1] if k[0] == 'const' else None)
        if last == 'getattr' and len(e.args) >= 2 and isinstance(e.args[0], ast.Name) and e.args[0].id == 'self':
            k = self.ev(e.args[1], st)
            if k[0] == 'const':
                return st.env.get('self.' + str(k[1]), ('op', 'self.' + str(k[1]), False))
        if last in KEEP and e.args:
            a = e.args[0]
            v = self.ev(a, st)
            return v if v[0] in ('seq', 'acc', 'newlist', 'upto') else ('op', ast.unparse(e)[:60], True)
        if last in ('dot', 'matmul') and len(e.args) == 2:
            v = self.ev(e.args[0], st)
            return v if v[0] == 'seq' else ('op', ast.unparse(e)[:60], True)
        if last in ('zeros', 'ones', 'empty', 'full') and e.args:
            a = e.args[0]
            if isinstance(a, ast.Tuple) and a.elts:
                a = a.elts[0]
            return self.lenof(a, st)
        if last in ('zeros_like', 'empty_like', 'ones_like', 'full_like') and e.args:
            return self.ev(e.args[0], st)
        known = isinstance(e.func, ast.Name) and last in ('int', 'float', 'str', 'bool', 'dict', 'set', 'sorted', 'open') or \
            (self.w.full(self.mod, e.func) or '').startswith(('numpy.', 'mmap.'))
        return ('op', ast.unparse(e)[:60], bool(known))

    # -- conditions -----------------------------------------------------
    def assume(self, st, key, val):
        if key in st.cons:
            return [st] if st.cons[key] is val else []
        s = st.copy()
        s.cons[key] = val
        return [s]

    def cond(self, t, st):
        """-> (states where it holds, states where it does not)"""
        if isinstance(t, ast.Constant):
            return ([st], []) if t.value else ([], [st])
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.cond(t.operand, st)
            return b, a
        if isinstance(t, ast.BoolOp):
            yes, no, cur = [], [], [st]
            for v in t.values:
                nxt = []
                for s in cur:
                    a, b = self.cond(v, s)
                    if isinstance(t.op, ast.And):
                        nxt += a
                        no += b
                    else:
                        yes += a
                        nxt += b
                cur = nxt
            return (cur, no) if isinstance(t.op, ast.And) else (yes, cur)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, op, r = t.left, t.ops[0], t.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                v = self.ev(l, st)
                pos = isinstance(op, (ast.Is, ast.Eq))
                if v == NONE:
                    return ([st], []) if pos else ([], [st])
                if v[0] in ('seq', 'acc', 'const', 'h5', 'upto', 'len') or v[0] == 'op' and v[2]:
                    return ([], [st]) if pos else ([st], [])
                k = 'none:' + (v[1] if v[0] == 'op' else ast.unparse(l))
                a, b = self.assume(st, k, True), self.assume(st, k, False)
                if a and a[0] is not st:
                    self.setnone(a[0], l, v)
                return (a, b) if pos else (b, a)
            ph = self.counter_test(l, op, r, st)
            if ph is not None:
                return ph
            if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn)):
                flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(op)]
                a, b = self.cond(ast.copy_location(ast.Compare(left=l, ops=[flip()], comparators=[r]), t), st)
                return b, a
        if isinstance(t, ast.Name):
            v = st.env.get(t.id)
            if v == NONE:
                return [], [st]
            if v is not None and v[0] == 'const':
                return ([st], []) if v[1] else ([], [st])
        k = 'true:' + self.canon(t, st)
        if isinstance(t, ast.Name):
            v = st.env.get(t.id, ('op', t.id, False))
            if v[0] == 'op':
                nk = 'none:' + v[1]
                if st.cons.get(nk) is True:
                    return [], [st]
                a, b = self.assume(st, k, True), self.assume(st, k, False)
                a = [x for y in a for x in self.assume(y, nk, False)]
                return a, b
        return self.assume(st, k, True), self.assume(st, k, False)

    def setnone(self, s, l, v):
        if isinstance(l, ast.Name):
            s.env[l.id] = NONE if l.id not in self.params else s.env.get(l.id, v)
        elif isinstance(l, ast.Attribute) and isinstance(l.value, ast.Name) and l.value.id == 'self':
            s.env['self.' + l.attr] = NONE

    def counter_test(self, l, op, r, st):
        if not self.loops or not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return None
        info = self.loops[-1]
        if info.counter is None:
            return None
        d = lsub(lin(l, self.sub), lin(r, self.sub))         # l - r  op  0
        c = d.pop(info.counter, 0)
        if c not in (1, -1):
            return None
        # counter = n + a at this point
        a = info.offset(l)
        if a is None:
            return None
        d[''] = d.get('', 0) + c * a
        o = type(op)
        if c == -1:
            d = {k: -v for k, v in d.items()}
            o = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[o]
        # n + d  o  0     ->   n >= Z or its negation, Z = -d (+1)
        z = {k: -v for k, v in d.items()}
        neg = False
        if o is ast.Gt:
            z[''] = z.get('', 0) + 1
        elif o is ast.Lt:
            neg = True
        elif o is ast.LtE:
            z[''] = z.get('', 0) + 1
            neg = True
        z = {k: v for k, v in z.items() if v}
        zt = ltext(z)
        info.tests[zt] = z
        cur = st.phase.get(zt)
        hit = st.copy()
        hit.phase[zt] = True
        hit.cons['now:' + zt] = True
        miss = st.copy()
        miss.cons['now:' + zt] = False
        ge, lt = ([hit], [] if cur else [miss])
        return (lt, ge) if neg else (ge, lt)

    # -- statements -----------------------------------------------------
    def block(self, body, states):
        for s in body:
            if not states:
                return []
            states = merge(self.stmt(s, states))
        return states

    def forget(self, st, names):
        """drop what was assumed about the names"""
        if not names:
            return
        for k in list(st.cons):
            if k.startswith('now:'):
                continue
            t = k.split(':', 1)[1]
            try:
                ns = {n.id for n in ast.walk(ast.parse(t, mode='eval')) if isinstance(n, ast.Name)}
                ats = {ast.unparse(n) for n in ast.walk(ast.parse(t, mode='eval')) if isinstance(n, ast.Attribute)}
            except SyntaxError:
                ns, ats = set(), set()
            if ns & names or ats & names:
                del st.cons[k]

    def setname(self, st, name, v, node):
        self.forget(st, {name})
        if v[0] in ('newlist', 'newmap') and name not in self.watch:
            v = ('op', name, True)
        if v[0] == 'newlist':
            key = name
            was = st.env.get(name)
            if self.loops and was == ('acc', key):
                st.flags = st.flags | {('reset', key)}
                if not any(k.startswith('now:') and val is False for k, val in st.cons.items()):
                    st.flags = st.flags | {('doubt', key)}
                self.events.append(('reset', node, st.copy(), key))
            st.counts[key] = 0
            v = ('acc', key)
        elif v[0] == 'newmap':
            key = name
            st.counts[key] = 0
            self.events.append(('map', node, st.copy(), (key, v[1])))
            st.flags = frozenset(f for f in st.flags if f != ('map', key)) | {('map', key)}
            v = ('acc', key)
        elif v[0] == 'upto':
            v = self.upto(v, st)
        elif v[0] == 'op' and name not in self.watch:
            if v[2] or st.env.get(name) is not None:
                v = ('op', name, v[2])
            else:
                st.env.pop(name, None)
                return
        elif v[0] == 'op':
            v = ('op', name, v[2])
        st.env[name] = v

    def upto(self, v, st):
        """the first len(t) elements of x"""
        x, t = v[1], v[2]
        if x[0] == 'seq' and t[0] == 'seq' and not x[2]:
            xb, _, xc = x[1].rpartition(':')
            tb, _, tc = t[1].rpartition(':')
            if xb.startswith('map+'):
                xb = xb[4:]
            if xb == tb and xb.startswith('loop'):
                if int(xc) >= int(tc):
                    return ('seq', t[1], t[2], x[3])
                return ('seq', x[1], x[2], x[3])
        return ('op', 'upto', True)

    def interest(self, s, states):
        if not self.calls:
            return
        for n in ast.walk(s):
            if id(n) in self.calls:
                for st in states:
                    self.events.append(('call', n, st.copy(), None))

    def observe(self, s, states):
        """called with the states before a statement (for subclasses); may change the states"""

    def stmt(self, s, states):
        out = []
        self.observe(s, states)
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)):
            self.interest(s, states)
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.Assert)):
            for st in states:
                out += self.simple(s, st)
            return out
        if isinstance(s, ast.If):
            for st in states:
                yes, no = self.cond(s.test, st)
                out += self.block(s.body, yes) + self.block(s.orelse, no)
            return out
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, states)
        if isinstance(s, ast.With):
            for st in states:
                st = st.copy()
                for i in s.items:
                    if isinstance(i.optional_vars, ast.Name):
                        self.setname(st, i.optional_vars.id, self.ev(i.context_expr, st), s)
                out.append(st)
            return self.block(s.body, out)
        if isinstance(s, ast.Try):
            mids, cur = [], states
            for x in s.body:
                if may_raise(x):
                    mids += self.raising(x, cur)
                cur = merge(self.stmt(x, cur))
                if not cur:
                    break
            res = self.block(s.orelse, cur)
            mids = merge([m.copy() for m in mids])
            for h in s.handlers:
                res = res + self.block(h.body, [m.copy() for m in mids])
            if s.finalbody:
                res = self.block(s.finalbody, merge(res))
            return res
        if isinstance(s, ast.Return):
            for st in states:
                self.returns.append((st, s))
            return []
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, ast.Break):
            if self.loops:
                for st in states:
                    self.loops[-1].breaks.append(st)
                    self.events.append(('break', s, st.copy(), self.loops[-1]))
            return []
        if isinstance(s, ast.Continue):
            if self.loops:
                for st in states:
                    self.loops[-1].conts.append(st)
            return []
        return states

    def raising(self, x, states):
        """states in which a statement of a try block raises (before its effect); compound statements: inside of them"""
        if isinstance(x, (ast.If,)):
            out = []
            for st in states:
                yes, no = self.cond(x.test, st)
                for body, ss in ((x.body, yes), (x.orelse, no)):
                    cur = ss
                    for y in body:
                        if not cur:
                            break
                        if may_raise(y):
                            out += self.raising(y, cur)
                        keep = len(self.events), len(self.returns)
                        br = [list(i.breaks) for i in self.loops], [list(i.conts) for i in self.loops]
                        cur = merge(self.stmt(y, cur))
                        del self.events[keep[0]:]
                        del self.returns[keep[1]:]
                        for i, b, c in zip(self.loops, br[0], br[1]):
                            i.breaks, i.conts = b, c
            return out
        return list(states)

    def simple(self, s, st):
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call):
                if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, (ast.Name, ast.Attribute)):
                    key = ast.unparse(v.func.value)
                    val = st.env.get(key)
                    if val is not None and val[0] == 'acc':
                        st = st.copy()
                        if v.func.attr == 'append':
                            self.count(st, val[1], 1)
                            self.events.append(('append', s, st.copy(), (val[1], v.args[0] if v.args else None)))
                        elif v.func.attr == 'pop':
                            self.count(st, val[1], -1)
                        elif v.func.attr == 'clear':
                            return self.simple(ast.copy_location(ast.Assign(targets=[v.func.value], value=ast.List(elts=[], ctx=ast.Load())), s), st)
                        elif v.func.attr in ('insert',):
                            self.count(st, val[1], 1)
                        elif v.func.attr in ('extend', 'remove'):
                            st.env[key] = ('op', key, True)
                        elif v.func.attr == 'write' or v.func.attr == 'flush':
                            pass
                        return [st]
                if isinstance(v.func, ast.Name) and v.func.id == 'setattr' and len(v.args) == 3 and isinstance(v.args[0], ast.Name) and v.args[0].id == 'self':
                    k = self.ev(v.args[1], st)
                    if k[0] == 'const':
                        return self.assign(ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=str(k[1]), ctx=ast.Store()), v.args[2], st, s)
                d = dotted(v.func) or ''
                if d in ('exit', 'quit', 'sys.exit', 'os._exit', 'os.abort'):
                    return []
                if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
                    st = st.copy()
                    self.forget(st, {v.func.value.id})
                r = self.effect(v, st)
                if r is not None:
                    return r
                if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self' and self.depth < 3:
                    r = self.inline(v, st)
                    if r is not None:
                        return [x for x, _ in r]
            return [st]
        if isinstance(s, ast.Assign):
            states = [st]
            for t in s.targets:
                nxt = []
                for x in states:
                    nxt += self.assign(t, s.value, x, s)
                states = nxt
            return states
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return self.assign(s.target, s.value, st, s)
        if isinstance(s, ast.AugAssign):
            st = st.copy()
            t = s.target
            key = ast.unparse(t)
            val = st.env.get(key)
            if isinstance(t, ast.Name) and val is not None and val[0] == 'acc':
                if isinstance(s.op, ast.Add) and isinstance(s.value, ast.List) and len(s.value.elts) == 1:
                    self.count(st, val[1], 1)
                    self.events.append(('append', s, st.copy(), (val[1], s.value.elts[0])))
                else:
                    st.env[key] = ('op', key, True)
                return [st]
            if isinstance(t, ast.Name) and val is not None and val[0] == 'seq':
                return [st]
            if isinstance(t, ast.Name):
                self.setname(st, t.id, ('op', t.id, True), s)
            return [st]
        if isinstance(s, ast.Delete):
            st = st.copy()
            for t in s.targets:
                k = ast.unparse(t)
                if isinstance(t, ast.Subscript):
                    k = ast.unparse(t.value)
                    v = st.env.get(k)
                    if v is not None and v[0] == 'acc' and isinstance(t.slice, (ast.UnaryOp, ast.Constant)):
                        self.count(st, v[1], -1)
                        continue
                    if v is not None and v[0] == 'acc':
                        if isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
                            return self.simple(ast.copy_location(ast.Assign(targets=[t.value], value=ast.List(elts=[], ctx=ast.Load())), s), st)
                        st.env[k] = ('op', k, True)
                else:
                    st.env.pop(k, None)
            return [st]
        return [st]

    def effect(self, call, st):
        """states after a call made for its effect, or None (for subclasses)"""
        return None

    def count(self, st, key, d):
        if d > 0:
            st.cons['now:#' + key] = True
        st.counts[key] = st.counts.get(key, 0) + d

    def assign(self, t, value, st, node):
        if isinstance(value, ast.IfExp):
            out = []
            yes, no = self.cond(value.test, st)
            for s in yes:
                out += self.assign(t, value.body, s, node)
            for s in no:
                out += self.assign(t, value.orelse, s, node)
            return out
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(t.elts) == len(value.elts):
            vals = [self.ev(x, st) for x in value.elts]
            st = st.copy()
            for x, v in zip(t.elts, vals):
                if isinstance(x, ast.Name):
                    self.setname(st, x.id, v, node)
                elif isinstance(x, ast.Attribute) and ast.unparse(x.value) == 'self':
                    self.setself(st, x.attr, v)
            return [st]
        if isinstance(value, ast.Call) and self.depth < 3:
            r = self.inline(value, st)
            if r is not None:
                out = []
                for s, v in r:
                    out += self.put(t, v, s, node)
                return out
        return self.put(t, self.ev(value, st), st, node, value)

    def put(self, t, v, st, node, value=None):
        st = st.copy()
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = v[1] if v[0] == 'tuple' and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, p in zip(t.elts, parts):
                if isinstance(x, ast.Name):
                    self.setname(st, x.id, p if p is not None else ('op', x.id, False), node)
                elif isinstance(x, ast.Attribute) and ast.unparse(x.value) == 'self':
                    self.setself(st, x.attr, p if p is not None else ('op', ast.unparse(x), False))
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
            self.setself(st, t.attr, v)
        elif isinstance(t, ast.Subscript):
            key = ast.unparse(t.value)
            val = st.env.get(key)
            if val is not None and val[0] == 'acc':
                i = t.slice.elts[0] if isinstance(t.slice, ast.Tuple) and t.slice.elts else t.slice
                self.events.append(('store', node, st.copy(), (val[1], i, value)))
                if not isinstance(i, ast.Slice):
                    if self.aligned(i, st) is False:
                        st.flags = st.flags | {('shifted', val[1])}
                    elif self.aligned(i, st) is None:
                        st.flags = st.flags | {('unknown', val[1])}
                    self.count(st, val[1], 1)
        return [st]

    def aligned(self, idx, st):
        """the index used in the n-th turn counts the steps stored so far (0 for the first one)"""
        if not self.loops:
            return None
        info = self.loops[-1]
        if isinstance(idx, ast.BinOp) or isinstance(idx, ast.Name) or isinstance(idx, ast.Call):
            n = self.lencount(idx)
            if n is not None:
                key, off = n
                v = st.env.get(key)
                if v is not None and v[0] == 'acc':
                    return None if v[1] not in st.counts else ('len', v[1], off) and None
            if info.counter is None:
                return None
            d = lin(idx, self.sub)
            if d.pop(info.counter, 0) != 1:
                return None
            a = info.offset(idx)
            if a is None:
                return None
            d[''] = d.get('', 0) + a            # index = n + d
            d = {k: v for k, v in d.items() if v}
            firsts = [z for t, z in info.tests.items() if st.cons.get('now:' + t) is True]
            if not firsts:
                firsts = [{'': 1}]
            for z in firsts:
                tot = dict(d)
                for k, v in z.items():
                    tot[k] = tot.get(k, 0) + v
                if not {k: v for k, v in tot.items() if v}:
                    return True
            tot = {k: v for k, v in tot.items() if v}
            return False if len(firsts) == 1 and set(tot) <= {''} else None
        return None

    @staticmethod
    def lencount(e):
        off = 0
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and isinstance(e.right, ast.Constant):
            e, off = e.left, -e.right.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            return ast.unparse(e.args[0]), off
        return None

    def setself(self, st, attr, v):
        self.forget(st, {'self.' + attr})
        st.env['self.' + attr] = v if v[0] not in ('op', 'newlist', 'newmap') else ('op', 'self.%s#' % attr, v[2] if v[0] == 'op' else True)

    def inline(self, call, st):
        """[(state, value)] of a call of a small function of the program, or None"""
        f = self.w.target(self.mod, call, self.func.cls)
        if f is None or f.node is self.node:
            return None
        if any(isinstance(n, (ast.While, ast.Try, ast.Yield)) or
               isinstance(n, ast.For) and not (isinstance(n.iter, (ast.Tuple, ast.List)) and isinstance(n.target, ast.Name) and
                                               all(isinstance(x, ast.Constant) for x in n.iter.elts))
               for n in ast.walk(f.node)):
            return None
        if sum(1 for n in ast.walk(f.node) if isinstance(n, ast.stmt)) > 15:
            return None
        from .checks.c09 import bind, default
        b = bind(f, call)
        if b is None:
            return None
        sub = type(self)(self.prog, f, self.w, (), self.depth + 1)
        env = {k: v for k, v in st.env.items() if k.startswith('self.')}
        texts = {}
        for p in sub.params:
            if p == 'self':
                continue
            e = b.get(p)
            if e is None:
                e = default(f, p)
                env[p] = sub.ev(e, State({})) if e is not None else ('op', p, False)
                continue
            v = self.ev(e, st)
            env[p] = v
            if v[0] == 'op':
                texts[p] = e
        rename = {p: e for p, e in texts.items()}

        def subst(name, old=sub.sub):
            if name in rename:
                e = rename[name]
                r = self.sub(name) if isinstance(e, ast.Name) and e.id == name else None
                if isinstance(e, ast.Name):
                    return None if e.id == name else e
                return e
            return old(name)
        sub.sub = subst
        for p, e in rename.items():
            if isinstance(e, ast.Name):
                env[p] = ('op', e.id, env[p][2])
        out = []
        # what is known of the arguments is known of the parameters
        start = State(env, st.cons, st.counts, st.phase, st.flags, st.path)
        for s, r in sub.run_from(start):
            v = NONE
            if r is not None and r.value is not None:
                v = sub.ev(r.value, s) if not isinstance(r.value, ast.IfExp) else None
                if isinstance(r.value, ast.Tuple):
                    v = ('tuple', tuple(sub.ev(x, s) for x in r.value.elts))
            n = st.copy()
            n.cons = s.cons
            if r is not None and isinstance(r.value, ast.IfExp):
                yes, no = sub.cond(r.value.test, s)
                for ss, ex in [(x, r.value.body) for x in yes] + [(x, r.value.orelse) for x in no]:
                    m = st.copy()
                    m.cons = dict(ss.cons)
                    out.append((m, sub.ev(ex, ss)))
                continue
            for k, val in s.env.items():
                if k.startswith('self.'):
                    n.env[k] = val
            out.append((n, v))
        return out

    def run_from(self, st):
        out = self.block(self.node.body, [st])
        return self.returns + [(s, None) for s in out]

    # -- loops ----------------------------------------------------------
    def loop(self, s, states):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and isinstance(s.target, ast.Name) and \
                all(isinstance(x, ast.Constant) for x in s.iter.elts) and len(s.iter.elts) <= 12:
            cur = states
            done = []
            for x in s.iter.elts:
                nxt = []
                for st in cur:
                    st = st.copy()
                    self.forget(st, {s.target.id})
                    st.env[s.target.id] = ('const', x.value)
                    nxt.append(st)
                self.loops.append(LoopInfo(self, s, None))
                end = self.block(s.body, nxt)
                info = self.loops.pop()
                done += info.breaks
                cur = merge(end + info.conts)
            out = merge(cur + done)
            for st in out:
                st.env.pop(s.target.id, None)
            return self.block(s.orelse, out)
        touched = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                touched.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                touched.add(ast.unparse(n))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                touched.add(ast.unparse(n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'pop', 'insert', 'extend', 'remove', 'clear'):
                touched.add(ast.unparse(n.func.value))
        if not (touched & self.watch) and not any(x.startswith('self.') for x in touched) and \
                not any(isinstance(n, ast.Return) or id(n) in self.calls for n in ast.walk(s)):
            out = []
            for st in states:
                st = st.copy()
                self.forget(st, touched)
                for x in touched:
                    if x in st.env:
                        st.env[x] = ('op', x, False)
                out.append(st)
            return self.block(s.orelse, merge(out))
        states = [self.stash(st, len(self.loops)) for st in states]
        info = LoopInfo(self, s, states)
        seen = {}
        exits = []
        work = []
        for st in states:
            b = st.copy()
            b.flags = b.flags
            work.append(b)
        zero = [st.copy() for st in states]
        regular = isinstance(s, ast.For)
        length = None
        if regular:
            length = self.iterlen(s.iter, states[0])
        deltas = []
        outer = [i for i in self.loops if not (isinstance(i.node, ast.For) and isinstance(i.node.iter, (ast.Tuple, ast.List)))]
        self.loops.append(info)
        while work:
            st = work.pop()
            k = st.key(True)
            if k in seen:
                continue
            seen[k] = st
            if len(seen) > 400:
                self.loops.pop()
                raise TooMany()
            body = st.copy()
            for x in list(body.cons):
                if x.startswith('now:'):
                    del body.cons[x]
            starts = [body]
            if isinstance(s, ast.While):
                starts, out = self.cond(s.test, body)
                exits += [('test', x) for x in out]
                self.events += [('stop', s, x.copy(), info) for x in out]
            else:
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        self.forget(body, {n.id})
                        body.env.pop(n.id, None)
            info.breaks, info.conts = [], []
            before = dict(body.counts)
            end = self.block(s.body, starts)
            brk = info.breaks
            for x in merge(end + info.conts):
                self.events.append(('turn', s, x.copy(), info))
                dl = {a: x.counts.get(a, 0) - before.get(a, 0) for a in x.counts}
                deltas.append(dl)
                if regular and not outer:
                    x.flags = x.flags | {('d', a, c) for a, c in dl.items()}
                info.backs.append(x.copy())
                x = self.normal(x)
                for y in list(x.cons):
                    if y.startswith('now:'):
                        del x.cons[y]
                work.append(x)
                if isinstance(s, ast.For):
                    exits.append(('test', x.copy()))
            for x in brk:
                exits.append(('break', x.copy()))
        self.loops.pop()
        if isinstance(s, ast.For):
            exits += [('test', z) for z in zero]
        exact = regular and not any(k == 'break' for k, _ in exits) and length is not None and length[0] == 'seq' and \
            not any(isinstance(n, ast.Return) for n in ast.walk(s))
        out = []
        for kind, x in exits:
            x = x.copy()
            for y in list(x.cons):
                if y.startswith('now:'):
                    del x.cons[y]
            if not outer:
                live = {v[1] for v in x.env.values() if v[0] == 'acc'}
                ref = max([c for k, c in x.counts.items() if k in live], default=0)
                changed = [a for a in x.counts if any(d.get(a) for d in deltas) or any(f[1] == a for f in x.flags if isinstance(f, tuple))]
                for name, v in list(x.env.items()):
                    if v[0] == 'acc' and v[1] in x.counts:
                        a = v[1]
                        if a not in changed and not any(st.env.get(name) == v for st in states):
                            continue
                        if ('unknown', a) in x.flags:
                            x.env[name] = ('op', name, True)
                        elif exact and (all(d.get(a, 0) == 1 for d in deltas) or (x.counts.get(a, 0) == 0 or any(f[:2] == ('d', a) for f in x.flags)) and
                                        all(f[2] == 1 for f in x.flags if f[:2] == ('d', a)) and x.counts.get(a, 0) >= 0):
                            x.env[name] = ('seq', length[1], length[2], a)
                        elif exact and a not in changed:
                            pass
                        elif exact and {f[2] for f in x.flags if f[:2] == ('d', a)} == {0, 1} and not soft(s):
                            x.env[name] = ('seq', length[1] + '-0', length[2], a)
                        elif a in changed or any(b in changed for b in x.counts):
                            base = self.basename(s, x, a, ref)
                            x.env[name] = ('seq', base, (), a)
                x.phase = {}
                x.flags = frozenset(f for f in x.flags if f[0] != 'd')
            out.append(self.unstash(x, len(self.loops)))
        return self.block(s.orelse, merge(out)) if s.orelse else merge(out)

    @staticmethod
    def stash(st, depth):
        """what is known of this turn of the loop around is not about the turns of the loop inside"""
        st = st.copy()
        st.cons = {('was%d:' % depth + k[4:] if k.startswith('now:') else k): v for k, v in st.cons.items()}
        return st

    @staticmethod
    def unstash(st, depth):
        w = 'was%d:' % depth
        st.cons = {('now:' + k[len(w):] if k.startswith(w) else k): v for k, v in st.cons.items()}
        return st

    def basename(self, s, x, a, ref):
        """lists of equal counts get the same base"""
        c = x.counts.get(a, 0) - ref
        m = ('map', a) in x.flags
        text = 'loop%d' % s.lineno
        if ('shifted', a) in x.flags:
            return '%s:%s:shifted' % (text, a)
        if m:
            return 'map+%s:%s' % (text, c)
        return '%s:%s' % (text, c)

    def normal(self, x):
        x = x.copy()
        if x.counts:
            live = {v[1] for v in x.env.values() if v[0] == 'acc'}
            vals = [c for k, c in x.counts.items() if k in live]
            moving = [c for c in vals if c > 0]
            if moving and min(moving) > 2:
                d = min(moving) - 2
                x.counts = {k: (c - d if c > 0 and k in live else c) for k, c in x.counts.items()}
            x.counts = {k: max(-3, min(c, 6)) for k, c in x.counts.items()}
        return x


def may_raise(s):
    """statements of a try block taken as able to raise the handled errors: conversions, stores into arrays"""
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            d = (dotted(n.func) or '').split('.')[-1]
            if d not in ('print', 'append', 'len', 'format', 'pop', ''):
                return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            return True
    return isinstance(s, ast.Raise)


def soft(loop):
    """a test in the loop asks a function, or an error is handled: two turns may always go the same way"""
    for n in ast.walk(loop):
        if isinstance(n, ast.Try):
            return True
        if isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(c, ast.Call) for c in ast.walk(n.test)):
            return True
    return False


class LoopInfo:
    def __init__(self, ex, node, states):
        self.ex, self.node = ex, node
        self.breaks, self.conts, self.backs = [], [], []
        self.counter = None
        self.tests = {}
        self.init = None
        self.incs = []
        if states is None:
            return
        if isinstance(node, ast.For):
            it = node.iter
            f = (dotted(it.func) or '').split('.')[-1] if isinstance(it, ast.Call) else ''
            if f in ('count', 'range') and isinstance(node.target, ast.Name):
                start = None
                if f == 'count':
                    start = it.args[0] if it.args else ast.Constant(value=0)
                    if len(it.args) > 1:
                        start = None
                elif f == 'range':
                    start = it.args[0] if len(it.args) == 2 else ast.Constant(value=0) if len(it.args) == 1 else None
                if isinstance(start, ast.Constant):
                    self.counter, self.init = node.target.id, start.value - 1
            elif f == 'enumerate' and isinstance(node.target, ast.Tuple) and isinstance(node.target.elts[0], ast.Name):
                st = it.args[1] if len(it.args) > 1 else next((k.value for k in it.keywords if k.arg == 'start'), ast.Constant(value=0))
                if isinstance(st, ast.Constant):
                    self.counter, self.init = node.target.elts[0].id, st.value - 1
            return
        cand = {}
        for x in node.body:
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add) and \
                    isinstance(x.value, ast.Constant) and x.value.value == 1:
                cand.setdefault(x.target.id, []).append(x)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                d = lin(x.value, lambda n: None)
                if d == {x.targets[0].id: 1, '': 1}:
                    cand.setdefault(x.targets[0].id, []).append(x)
        for name, incs in cand.items():
            if len(incs) != 1:
                continue
            stores = [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
            if len(stores) != 1:
                continue
            inits = {st.env.get(name) for st in states}
            if len(inits) == 1:
                v = next(iter(inits))
                if v is not None and v[0] == 'const' and isinstance(v[1], int):
                    self.counter, self.init, self.incs = name, v[1], incs
                    for st in states:
                        st.env.pop(name, None)
                    return

    def offset(self, e):
        """the counter is n + offset where e is evaluated, in the n-th turn (n from 1)"""
        if self.init is None:
            return None
        if not self.incs:
            return self.init
        return self.init if self.incs[0].lineno < e.lineno else self.init - 1
