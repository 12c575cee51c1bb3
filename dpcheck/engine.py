"""Path-sensitive abstract interpreter of the repository's Python (syntax trees only, nothing is executed).

Abstract values carry a value number (tok), the state they were computed from (deps), the heap location
they alias (loc) and whether they are None.  States are merged at joins when they agree on a key supplied
by the client, so that a client property (a typestate) is tracked path-sensitively and the rest is joined.
"""
import ast
import itertools

from .model import Func, Class, Program

EMPTY = frozenset()


# ---------------------------------------------------------------- tokens
class Toks:
    def __init__(self):
        self.ids = {}
        self.structs = []
        self.loops = []

    def get(self, struct, loops=EMPTY):
        i = self.ids.get(struct)
        if i is None:
            i = len(self.structs)
            self.ids[struct] = i
            self.structs.append(struct)
            self.loops.append(loops)
        return i

    def mk(self, kind, *parts):
        lp = EMPTY
        for p in parts:
            if isinstance(p, int) and not isinstance(p, bool):
                lp |= self.loops[p]
            elif isinstance(p, tuple):
                for q in p:
                    if isinstance(q, int) and not isinstance(q, bool):
                        lp |= self.loops[q]
        return self.get((kind,) + parts, lp)


def contains(t, tok, target, depth=0):
    """tok is target, or a plain conversion / tuple of values one of which is target."""
    if tok == target:
        return True
    if depth > 3:
        return False
    s = t.structs[tok]
    if s[0] in ('bin', 'binop', 'op', 'cmp', 'idx', 'loopphi', 'prev', 'phi', 'unary'):
        return False
    for p in s[1:]:
        for q in (p if isinstance(p, tuple) else (p,)):
            if isinstance(q, int) and not isinstance(q, bool) and 0 <= q < len(t.structs) and contains(t, q, target, depth + 1):
                return True
    return False


class V:
    __slots__ = ('kind', 'data', 'deps', 'tok', 'loc', 'none', 'pred')

    def __init__(self, kind, data, deps, tok, loc=None, none=None, pred=None):
        self.kind = kind
        self.data = data
        self.deps = deps
        self.tok = tok
        self.loc = loc
        self.none = none
        self.pred = pred

    def clone(self, **kw):
        v = V(self.kind, self.data, self.deps, self.tok, self.loc, self.none, self.pred)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def __repr__(self):
        return '<%s %r t%d>' % (self.kind, self.data, self.tok)


class State:
    __slots__ = ('heap', 'frames', 'snap', 'filled', 'facts', 'pc', 'marks')

    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.snap = {}
        self.filled = EMPTY
        self.facts = EMPTY
        self.pc = EMPTY
        self.marks = EMPTY

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.frames = dict(self.frames)
        s.snap = dict(self.snap)
        s.filled = self.filled
        s.facts = self.facts
        s.pc = self.pc
        s.marks = self.marks
        return s

    def setvar(self, fid, name, v):
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f


TRANSPARENT_COPY = {'numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.asfarray', 'numpy.atleast_1d'}
TRANSPARENT_ALIAS = {'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'sort', 'reverse', 'fill', 'setdefault',
            'resize', 'put', 'itemset', 'setflags', 'partition', 'add', 'discard', 'popitem'}
EXITS = {'exit', 'quit', 'sys.exit', 'os._exit', 'os.abort'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'print', 'isinstance', 'int', 'float', 'str', 'list', 'tuple', 'dict',
            'set', 'sum', 'abs', 'min', 'max', 'pow', 'round', 'sorted', 'reversed', 'open', 'exit', 'quit', 'type',
            'getattr', 'setattr', 'hasattr', 'bool', 'super', 'map', 'filter', 'any', 'all', 'iter', 'next', 'id',
            'chr', 'ord', 'complex', 'divmod', 'repr', 'format', 'slice', 'vars', 'object', 'input', 'callable',
            'frozenset', 'bytes', 'globals', 'locals', 'eval', 'exec', 'delattr', 'hash', 'bin', 'hex', 'issubclass',
            '__import__', 'memoryview', 'bytearray', 'staticmethod', 'classmethod', 'property', 'oct', 'ascii', 'dir',
            'breakpoint', 'compile', 'help'}


PURE_EXT = ('numpy.save', 'numpy.set_printoptions', 'matplotlib', 'sys.', 'os.', 'warnings', 'yaml', 'json', 'time.',
            'len', 'exit')


class Limit(Exception):
    pass


class Engine:
    MAXDEPTH = 30

    def __init__(self, prog, key=None, hooks=None, budget=6000000):
        self.prog = prog
        self.t = Toks()
        self.key = key or (lambda st: ())
        self.hooks = hooks
        self.cls_of = {}          # oid -> Class
        self.copy_of = {}
        self.oids = itertools.count(1)
        self.fids = itertools.count(1)
        self.stack = []
        self.inlined = set()
        self.param_obj = None     # oid of the shared settings object
        self.singletons = {}      # Class -> oid
        self.budget = budget
        self.steps = 0
        self.inline_all = False
        self.modcache = {}
        self.loopstack = []
        self.callnodes = []       # where each inlined function was called
        self.argstack = []        # arguments each inlined function was entered with
        self.sites = []           # call path
        self.guards = []          # locations known to be None by an enclosing test, per function

    # ------------------------------------------------------------ values
    def const(self, x, deps=EMPTY):
        try:
            t = self.t.mk('const', type(x).__name__, repr(x))
        except Exception:
            t = self.t.mk('const', 'x', str(id(x)))
        return V('const', x, deps, t, none=(x is None))

    def opq(self, tok, deps=EMPTY, loc=None, none=None, pred=None):
        return V('opq', None, deps, tok, loc, none, pred)

    def obj(self, oid):
        return V('obj', oid, EMPTY, self.t.mk('obj', str(oid)), none=False)

    def new_obj(self, cls, name=None):
        oid = name or 'o%d' % next(self.oids)
        self.cls_of[oid] = cls
        return oid

    def seq(self, elems):
        elems = tuple(elems)
        deps = EMPTY
        for e in elems:
            deps |= e.deps
        return V('seq', elems, deps, self.t.mk('seq', tuple(e.tok for e in elems)), none=False)

    def choice(self, vs, site=''):
        out, seen = [], set()
        for v in vs:
            for w in (v.data if v.kind == 'choice' else [v]):
                if w.tok not in seen:
                    seen.add(w.tok)
                    out.append(w)
        if len(out) == 1:
            return out[0]
        deps = EMPTY
        for v in out:
            deps |= v.deps
        nones = set(v.none for v in out)
        tok = self.t.mk('phi', tuple(sorted(v.tok for v in out)))
        if all(v.kind in ('opq', 'const', 'seq', 'map') and not self.has_func(v) for v in out):
            return self.opq(tok, deps, none=(nones.pop() if len(nones) == 1 else None))
        return V('choice', tuple(out), deps, tok, none=(nones.pop() if len(nones) == 1 else None))

    def has_func(self, v, depth=0):
        if v.kind in ('func', 'bound', 'obj', 'class'):
            return True
        if v.kind in ('seq', 'choice') and depth < 3:
            return any(self.has_func(e, depth + 1) for e in v.data)
        return False

    def has_obj(self, v, depth=0):
        if v.kind in ('obj', 'bound'):
            return True
        if v.kind == 'func':
            return v.data[1] is not None
        if v.kind in ('seq', 'choice') and depth < 4:
            return any(self.has_obj(e, depth + 1) for e in v.data)
        if v.kind == 'map' and depth < 4:
            return any(self.has_obj(e, depth + 1) for _, e in v.data)
        return False

    # ------------------------------------------------------------ joins
    def join_v(self, a, b, site):
        if a is b:
            return a
        if a.tok == b.tok and a.kind == b.kind:
            if a.deps == b.deps and a.loc == b.loc:
                return a
            return a.clone(deps=a.deps | b.deps, loc=a.loc if a.loc == b.loc else None,
                           none=a.none if a.none == b.none else None)
        if a.tok == b.tok:
            # the same value, known to be None on one side only
            return self.opq(a.tok, a.deps | b.deps, loc=a.loc if a.loc == b.loc else None,
                            none=a.none if a.none == b.none else None)
        return self.choice([a, b], site)

    def join(self, a, b, site, loophead=None, cond=EMPTY):
        """a, b have the same key."""
        s = State()
        t = self.t

        def comb(name, x, y):
            if x.tok == y.tok:
                return self.join_v(x, y, site)
            f = frozenset((x.tok, y.tok))
            if f in a.facts:
                return y.clone(loc=x.loc) if y.kind == 'opq' else y       # equal on the first side
            if f in b.facts:
                return x.clone(loc=y.loc) if x.kind == 'opq' else x
            v = self.join_v(x, y, site)
            memo = name[0] == 'h' and (x.none is True or y.none is True) and self.hooks is not None \
                and (self.hooks.is_memo(name[1]) or self.hooks.droppable(name[1]))
            if cond and not memo and not cond <= v.deps and v.kind not in ('obj', 'func', 'bound', 'class', 'mod', 'ext'):
                v = v.clone(deps=v.deps | cond)
            if loophead is not None and v.kind in ('opq', 'choice'):
                tok = t.get(('loopphi', loophead, name), frozenset(self.loopstack) | frozenset([loophead]))
                v = v.clone(tok=tok)
            return v

        heap = {}
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                other = x if y is None else y
                init = self.init_value(k)
                x, y = (other, init) if y is None else (init, other)
            heap[k] = comb(('h', k), x, y)
        s.heap = heap
        frames = {}
        for fid in a.frames.keys() & b.frames.keys():
            fa, fb = a.frames[fid], b.frames[fid]
            if fa is fb:
                frames[fid] = fa
                continue
            f = {}
            for n in fa.keys() | fb.keys():
                x, y = fa.get(n), fb.get(n)
                if n == '<parent>' or x is None or y is None:
                    f[n] = x if y is None else y
                else:
                    f[n] = comb(('v', fid, n), x, y)
            frames[fid] = f
        s.frames = frames
        s.facts = a.facts & b.facts
        marks = set()
        for m in a.marks | b.marks:
            if m[0] == 'same':
                if all(m in x.marks or self.cur_tok(x, m[1]) == m[2] for x in (a, b)):
                    marks.add(m)
            else:
                marks.add(m)
        s.marks = frozenset(marks)
        # snapshots: fresh on both sides stays fresh
        s.snap = {}
        for m in (self.hooks.tracked() if self.hooks is not None else ()):
            sa, sb = a.snap.get(m), b.snap.get(m)
            if sa is sb and sa == 'USER':
                s.snap[m] = 'USER'
                continue
            if sa == 'USER' or sb == 'USER':
                o = sb if sa == 'USER' else sa
                if o is not None:
                    s.snap[m] = o
                continue
            out = {}
            na = self.is_none(a, m)
            nb = self.is_none(b, m)
            for base in self.hooks.bases(m):
                ta, tb = self.snap_tok(a, m, base), self.snap_tok(b, m, base)
                ca, cb = self.cur_tok(a, base), self.cur_tok(b, base)
                fresh_a = na or self.fresh(a, m, base, ta, ca)
                fresh_b = nb or self.fresh(b, m, base, tb, cb)
                cs = self.cur_tok(s, base)
                if fresh_a and fresh_b:
                    t0 = next((x for x in (ta, tb) if ('same', base, x) in s.marks), cs)
                elif ta == tb:
                    t0 = ta
                else:
                    t0 = t.mk('stalesnap', str(m), str(base))
                if t0 != self.init_tok(base):
                    out[base] = t0
            ka, kb = (sa or {}).get('#cut'), (sb or {}).get('#cut')
            if ka is not None and (ka == kb or nb):
                out['#cut'] = ka
            elif kb is not None and na:
                out['#cut'] = kb
            if out:
                s.snap[m] = out
        s.filled = a.filled & b.filled
        s.pc = a.pc | b.pc
        return s

    def is_none(self, st, loc):
        v = st.heap.get(loc)
        if v is None:
            v = self.init_value(loc)
        return v.none is True

    def fresh(self, st, m, base, s, c):
        if self.agree(st, base, s, c):
            return True
        cut = (st.snap.get(m) or {}).get('#cut')
        return cut is not None and c == self.t.mk('idx', s, cut)

    def agree(self, st, base, s, c):
        return s == c or frozenset((s, c)) in st.facts or ('same', base, s) in st.marks

    def snap_tok(self, st, m, base):
        sn = st.snap.get(m)
        if sn and base in sn:
            return sn[base]
        return self.init_tok(base)

    def cur_tok(self, st, base):
        v = st.heap.get(base)
        if v is None:
            return self.init_tok(base)
        return v.tok

    def init_tok(self, loc):
        return self.t.mk('init', str(loc[0]), loc[1])

    def init_value(self, loc):
        if self.hooks is not None:
            v = self.hooks.initial(self, loc)
            if v is not None:
                return v
        return self.opq(self.init_tok(loc), frozenset([loc]), loc=loc)

    def merge(self, states, site, loophead=None, cond=EMPTY):
        if len(states) <= 1:
            return states
        groups = {}
        order = []
        for s in states:
            k = self.key(s)
            if k in groups:
                groups[k] = self.join(groups[k], s, site, loophead, cond)
            else:
                groups[k] = s
                order.append(k)
        # keys may move after a join
        return [groups[k] for k in order]

    def merge_v(self, pairs, site):
        if len(pairs) <= 1:
            return pairs
        groups = {}
        order = []
        for s, v in pairs:
            k = (self.key(s), self.vkey(v))
            if k in groups:
                s0, v0 = groups[k]
                groups[k] = (self.join(s0, s, site), self.join_v(v0, v, site))
            else:
                groups[k] = (s, v)
                order.append(k)
        return [groups[k] for k in order]

    def vkey(self, v):
        if v.kind in ('obj', 'bound', 'func', 'class'):
            return (v.kind, v.tok)
        return None

    # ------------------------------------------------------------ heap
    def get_attr_raw(self, st, oid, attr):
        loc = (oid, attr)
        v = st.heap.get(loc)
        if v is None and oid in self.copy_of:
            src = self.copy_of[oid]
            return self.get_attr_raw(st, src, attr).clone(loc=loc)
        if v is None:
            v = self.init_value(loc)
        if v.loc != loc and v.kind not in ('obj', 'func', 'class', 'bound', 'mod'):
            v = v.clone(loc=loc)
        return v

    def set_attr_raw(self, st, oid, attr, v, node, fn):
        loc = (oid, attr)
        st = st.copy()
        old = self.get_attr_raw(st, oid, attr)
        if v.kind == 'const' and v.data is None:
            v = v.clone(deps=EMPTY)
        nv = v.clone(loc=loc)
        st.heap[loc] = nv
        if self.hooks is not None:
            self.hooks.on_write(self, st, loc, old, nv, node, fn)
        return st

    def mutate_loc(self, st, loc, value_deps, node, fn):
        """in-place change of the object stored at loc."""
        st = st.copy()
        old = st.heap.get(loc) or self.init_value(loc)
        tok = self.t.mk('mut', old.tok, str(getattr(node, 'lineno', 0)) + ':' + str(getattr(node, 'col_offset', 0)))
        nv = V('opq', None, old.deps | value_deps, tok, loc, False)
        st.heap[loc] = nv
        for fid, f in list(st.frames.items()):
            g = None
            for n, x in f.items():
                if isinstance(x, V) and x.loc == loc and x.tok == old.tok:
                    if g is None:
                        g = dict(f)
                    g[n] = nv
            if g is not None:
                st.frames[fid] = g
        if self.hooks is not None:
            self.hooks.on_mutate(self, st, loc, old, nv, node, fn)
        return st

    # ------------------------------------------------------------ name lookup
    def lookup(self, st, fid, name, fn):
        f = fid
        while f is not None:
            env = st.frames.get(f)
            if env is None:
                break
            if name in env:
                return env[name]
            f = env.get('<parent>')
        r = fn.mod.resolve(name)
        v = self.from_resolved(r)
        if v is not None:
            return v
        if name in ('True', 'False', 'None'):
            return self.const({'True': True, 'False': False, 'None': None}[name])
        if name in BUILTINS:
            return V('ext', name, EMPTY, self.t.mk('ext', name), none=False)
        return self.opq(self.t.mk('free', name), EMPTY)

    def from_resolved(self, r):
        if r is None:
            return None
        if r[0] == 'func':
            return V('func', (r[1], None), EMPTY, self.t.mk('func', r[1].qual), none=False)
        if r[0] == 'class':
            return V('class', r[1], EMPTY, self.t.mk('class', r[1].mod.name, r[1].name), none=False)
        if r[0] == 'module':
            return V('mod', r[1], EMPTY, self.t.mk('mod', r[1]), none=False)
        if r[0] == 'ext':
            return V('ext', r[1], EMPTY, self.t.mk('ext', r[1]), none=False)
        if r[0] == 'value':
            mod, exprs = r[1], r[2]
            key = (mod.name, id(exprs))
            if key not in self.modcache:
                self.modcache[key] = self.opq(self.t.mk('modval', mod.name, str(id(exprs))))
                fn = Func(mod, mod.tree)
                fn.name = '<module>'
                vs = []
                for e in exprs:
                    st = State()
                    fid = next(self.fids)
                    st.frames[fid] = {'<parent>': None}
                    saved = self.hooks
                    self.hooks = None
                    try:
                        r2 = self.eval(e, st, fid, fn)
                        vs.append(r2[0][1] if len(r2) == 1 else self.choice([x for _, x in r2]))
                    except Limit:
                        raise
                    finally:
                        self.hooks = saved
                self.modcache[key] = vs[0] if len(vs) == 1 else self.choice(vs)
            return self.modcache[key]
        return None

    # ------------------------------------------------------------ expressions
    def evals(self, nodes, st, fid, fn):
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in out:
                for s2, v in self.eval(n, s, fid, fn):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def dep_union(self, vs):
        d = EMPTY
        for v in vs:
            d |= v.deps
            if v.kind == 'obj':
                d |= frozenset([(v.data, '*')])
        return d

    def eval(self, n, st, fid, fn):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n, st, fid, fn)
        # generic: union of the children
        kids = [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        out = []
        for s, vs in self.evals(kids, st, fid, fn):
            out.append((s, self.opq(self.t.mk(type(n).__name__, tuple(v.tok for v in vs), self.opname(n)),
                                    self.dep_union(vs), none=False)))
        return out

    def opname(self, n):
        if isinstance(n, (ast.BinOp, ast.UnaryOp)):
            return type(n.op).__name__
        return ''

    def e_Constant(self, n, st, fid, fn):
        return [(st, self.const(n.value))]

    def e_UnaryOp(self, n, st, fid, fn):
        out = []
        for s, v in self.eval(n.operand, st, fid, fn):
            if v.kind == 'const':
                try:
                    x = {'USub': lambda a: -a, 'Not': lambda a: not a, 'UAdd': lambda a: +a,
                         'Invert': lambda a: ~a}[type(n.op).__name__](v.data)
                    out.append((s, self.const(x, v.deps)))
                    continue
                except Exception:
                    pass
            pred = None
            if isinstance(n.op, ast.Not):
                pred = ('not', v.pred) if v.pred else ('truth', v)
                if pred[0] == 'truth':
                    pred = ('not', pred)
            elif isinstance(n.op, ast.Invert) and v.pred and v.pred[0] == 'cmp':
                pred = ('cmp', {'==': '!=', '!=': '=='}[v.pred[1]], v.pred[2], v.pred[3])
            out.append((s, self.opq(self.t.mk('un', type(n.op).__name__, v.tok), v.deps, none=False, pred=pred)))
        return out

    def e_Name(self, n, st, fid, fn):
        return [(st, self.lookup(st, fid, n.id, fn))]

    def e_Tuple(self, n, st, fid, fn):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = []
            for s, vs in self.evals([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, fid, fn):
                out.append((s, self.opq(self.t.mk('star', tuple(v.tok for v in vs)), self.dep_union(vs), none=False)))
            return out
        return [(s, self.seq(vs)) for s, vs in self.evals(n.elts, st, fid, fn)]

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, n, st, fid, fn):
        keys = [k for k in n.keys if k is not None]
        out = []
        for s, vs in self.evals(keys + n.values, st, fid, fn):
            kv, vv = vs[:len(keys)], vs[len(keys):]
            if len(keys) == len(vv) and all(k.kind == 'const' for k in kv):
                out.append((s, V('map', tuple((k.data, v) for k, v in zip(kv, vv)), self.dep_union(vs),
                                 self.t.mk('map', tuple(v.tok for v in vs)), none=False)))
            else:
                out.append((s, self.opq(self.t.mk('dict', tuple(v.tok for v in vs)), self.dep_union(vs), none=False)))
        return out

    def e_JoinedStr(self, n, st, fid, fn):
        return [(st, self.opq(self.t.mk('fstr', str(n.lineno)), none=False))]

    def e_Lambda(self, n, st, fid, fn):
        f = Func(fn.mod, n, fn.cls, fn)
        return [(st, V('func', (f, fid), EMPTY, self.t.mk('lambda', fn.mod.name, str(n.lineno), str(n.col_offset)),
                       none=False))]

    def e_IfExp(self, n, st, fid, fn):
        pairs = []
        for s, truth, deps in self.branch(n.test, st, fid, fn):
            s2 = s.copy()
            pc = s2.pc
            s2.pc = pc | deps
            for s3, v in self.eval(n.body if truth else n.orelse, s2, fid, fn):
                s3 = s3.copy()
                s3.pc = pc
                pairs.append((s3, v.clone(deps=v.deps | deps) if v.kind not in ('obj', 'bound', 'func', 'class') else v))
        return self.merge_v(pairs, n)

    def e_BoolOp(self, n, st, fid, fn):
        out = []
        for s, vs in self.evals(n.values, st, fid, fn):
            deps = self.dep_union(vs)
            preds = tuple(v.pred or ('truth', v) for v in vs)
            out.append((s, self.opq(self.t.mk('bool', type(n.op).__name__, tuple(v.tok for v in vs)), deps,
                                    pred=('and' if isinstance(n.op, ast.And) else 'or',) + preds)))
        return out

    def e_Compare(self, n, st, fid, fn):
        out = []
        for s, vs in self.evals([n.left] + n.comparators, st, fid, fn):
            deps = self.dep_union(vs)
            pred = None
            if len(n.ops) == 1:
                op = n.ops[0]
                a, b = vs
                if isinstance(op, (ast.Is, ast.IsNot)):
                    for x, y in ((a, b), (b, a)):
                        if y.kind == 'const' and y.data is None:
                            pred = ('none', x)
                    if pred is None:
                        pred = ('cmp', '==', a, b)
                    if isinstance(op, ast.IsNot):
                        pred = ('not', pred)
                elif isinstance(op, (ast.Eq, ast.NotEq)):
                    pred = None
                    for x, y in ((a, b), (b, a)):
                        if y.kind == 'const' and y.data is None:
                            pred = ('none', x)
                    if pred is not None:
                        if isinstance(op, ast.NotEq):
                            pred = ('not', pred)
                    elif self.is_len(a) and self.is_len(b):
                        pred = ('lencmp', '==' if isinstance(op, ast.Eq) else '!=')
                    else:
                        pred = ('cmp', '==' if isinstance(op, ast.Eq) else '!=', a, b)
                elif self.is_len(a) and self.is_len(b):
                    pred = None
                if a.kind == 'const' and b.kind == 'const':
                    try:
                        f = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y,
                             'Gt': lambda x, y: x > y, 'LtE': lambda x, y: x <= y, 'GtE': lambda x, y: x >= y,
                             'Is': lambda x, y: x is y or x == y, 'IsNot': lambda x, y: not (x is y or x == y),
                             'In': lambda x, y: x in y, 'NotIn': lambda x, y: x not in y}[type(op).__name__]
                        out.append((s, self.const(bool(f(a.data, b.data)), deps)))
                        continue
                    except Exception:
                        pass
            out.append((s, self.opq(self.t.mk('cmp', ','.join(type(o).__name__ for o in n.ops),
                                              tuple(v.tok for v in vs)), deps, none=False, pred=pred)))
        return out

    def is_len(self, v):
        return self.t.structs[v.tok][0] == 'len'

    def e_Attribute(self, n, st, fid, fn):
        out = []
        for s, v in self.eval(n.value, st, fid, fn):
            out += self.attr_of(v, n.attr, s, n, fn)
        return out

    def attr_of(self, v, attr, st, node, fn):
        k = v.kind
        if k == 'choice':
            pairs = []
            for w in v.data:
                pairs += self.attr_of(w, attr, st, node, fn)
            return self.merge_v(pairs, node)
        if k == 'obj':
            oid = v.data
            cls = self.cls_of.get(oid)
            if cls is not None:
                g = cls.lookup(self.prog, 'getters', attr)
                if g is not None:
                    if self.hooks is not None:
                        r = self.hooks.client_call(self, g, v, [], {}, st, node, fn)
                        if r is not None:
                            return r
                        r = self.hooks.summary(self, g, v, [], {}, st)
                        if r is not None:
                            return [(st, r)]
                    return self.call_func(g, None, [v], {}, st, node, fn)
                m = cls.lookup(self.prog, 'methods', attr)
                if m is not None and (oid, attr) not in st.heap:
                    if m.is_static():
                        return [(st, V('func', (m, None), EMPTY, self.t.mk('func', m.qual), none=False))]
                    return [(st, V('bound', (m, v), EMPTY, self.t.mk('bound', m.qual, v.tok), none=False))]
                a = cls.lookup(self.prog, 'attrs', attr)
                if a is not None and (oid, attr) not in st.heap and (self.hooks is None or not self.hooks.is_attr((oid, attr))):
                    fnm = Func(cls.mod, cls.node)
                    return self.eval(a, st, self.root_frame(st), fnm)
                if attr == '__dict__':
                    return [(st, V('objdict', oid, EMPTY, self.t.mk('objdict', str(oid)), none=False))]
                if attr == '__class__':
                    return [(st, V('class', cls, EMPTY, self.t.mk('class', cls.mod.name, cls.name), none=False))]
            r = self.get_attr_raw(st, oid, attr)
            if self.hooks is not None:
                r = self.hooks.on_read(self, st, (oid, attr), r, node, fn)
            return [(st, r)]
        if k == 'mod':
            r = self.from_resolved(self.prog.module_attr(v.data, attr))
            return [(st, r)]
        if k == 'ext':
            d = v.data + '.' + attr
            if d.startswith('np.'):
                d = 'numpy.' + d[3:]
            return [(st, V('ext', d, EMPTY, self.t.mk('ext', d), none=False))]
        if k == 'class':
            m = v.data.lookup(self.prog, 'methods', attr)
            if m is not None:
                return [(st, V('func', (m, None), EMPTY, self.t.mk('func', m.qual), none=False))]
            a = v.data.lookup(self.prog, 'attrs', attr)
            if a is not None:
                return self.eval(a, st, self.root_frame(st), Func(v.data.mod, v.data.node))
        if k == 'map' and attr in ('keys', 'values', 'items', 'get', 'copy', 'update', 'setdefault', 'pop', 'clear'):
            return [(st, V('method', (v, attr), v.deps, self.t.mk('method', v.tok, attr), none=False))]
        deps = v.deps
        if self.hooks is not None:
            deps = self.hooks.attr_deps(v, attr, deps)
        return [(st, V('method', (v, attr), deps, self.t.mk('attr', v.tok, attr), v.loc if attr in ('T', 'real', 'imag') else None,
                       False if attr in ('T', 'real', 'shape') else None, None))]

    def root_frame(self, st):
        if 0 not in st.frames:
            st.frames[0] = {'<parent>': None}
        return 0

    def e_Subscript(self, n, st, fid, fn):
        out = []
        for s, (v, i) in self.evals([n.value, n.slice], st, fid, fn):
            out.append((s, self.index(v, i, n)))
        return out

    def index(self, v, i, n):
        deps = self.dep_union([v, i]) - frozenset(d for d in EMPTY)
        if v.kind == 'choice':
            c = self.choice([self.index(w, i, n) for w in v.data])
            return c if deps <= c.deps else c.clone(deps=c.deps | deps)
        if v.kind == 'map':
            if i.kind == 'const':
                for k, w in v.data:
                    if k == i.data and type(k) == type(i.data):
                        return w
            if v.data:
                c = self.choice([w for _, w in v.data])
                return c.clone(deps=c.deps | i.deps, tok=self.t.mk('idx', v.tok, i.tok), none=False if c.none is False else None)
        if v.kind == 'seq' and i.kind == 'const' and isinstance(i.data, int) and -len(v.data) <= i.data < len(v.data):
            return v.data[i.data]
        it = i.tok
        if i.kind == 'seq' and i.data:
            full = self.t.mk('slice', '000', ())
            k = len(i.data)
            while k > 1 and i.data[k - 1].tok == full:
                k -= 1
            if k == 1:
                it = i.data[0].tok
        alias = None
        if v.loc is not None and (isinstance(n.slice, (ast.Slice, ast.Constant)) or
                                  (isinstance(n.slice, ast.Tuple) and all(isinstance(e, (ast.Slice, ast.Constant)) for e in n.slice.elts))):
            alias = v.loc
        return self.opq(self.t.mk('idx', v.tok, it), deps, loc=alias,
                        none=False if self.t.structs[it][0] == 'slice' else None)

    def e_Slice(self, n, st, fid, fn):
        parts = [p for p in (n.lower, n.upper, n.step) if p is not None]
        pat = ''.join('1' if p is not None else '0' for p in (n.lower, n.upper, n.step))
        return [(s, self.opq(self.t.mk('slice', pat, tuple(v.tok for v in vs)), self.dep_union(vs), none=False))
                for s, vs in self.evals(parts, st, fid, fn)]

    def e_Starred(self, n, st, fid, fn):
        return self.eval(n.value, st, fid, fn)

    def e_NamedExpr(self, n, st, fid, fn):
        out = []
        for s, v in self.eval(n.value, st, fid, fn):
            s = s.copy()
            s.setvar(fid, n.target.id, v)
            out.append((s, v))
        return out

    def comp(self, n, elts, st, fid, fn):
        states = [(st, [])]
        cf = next(self.fids)
        s = st.copy()
        s.frames[cf] = {'<parent>': fid}
        loopid = 'c%d.%d' % (n.lineno, n.col_offset)
        cur = [s]
        toks = []
        deps = EMPTY
        for g in n.generators:
            nxt = []
            for s in cur:
                for s2, it in self.eval(g.iter, s, cf, fn):
                    deps |= self.dep_union([it])
                    toks.append(it.tok)
                    s2 = s2.copy()
                    self.assign_target_raw(g.target, self.iter_value(it, loopid), s2, cf)
                    nxt.append(s2)
            cur = self.merge(nxt, n)
            for c in g.ifs:
                nxt = []
                for s in cur:
                    for s2, v in self.eval(c, s, cf, fn):
                        deps |= v.deps
                        nxt.append(s2)
                cur = self.merge(nxt, n)
        res = []
        for s in cur:
            for s2, vs in self.evals(elts, s, cf, fn):
                s2 = s2.copy()
                s2.frames.pop(cf, None)
                inner = self.dep_union(vs)
                res.append((s2, self.opq(self.t.mk('comp', str(n.lineno), str(n.col_offset), tuple(toks) + tuple(v.tok for v in vs)),
                                         deps | inner, none=False)))
        return self.merge_v(res, n)

    def e_ListComp(self, n, st, fid, fn):
        return self.comp(n, [n.elt], st, fid, fn)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st, fid, fn):
        return self.comp(n, [n.key, n.value], st, fid, fn)

    def iter_value(self, it, loopid):
        tok = self.t.get(('iter', it.tok, loopid), frozenset([loopid]) | self.t.loops[it.tok] | frozenset(self.loopstack))
        if it.kind == 'seq' and it.data:
            c = self.choice(list(it.data))
            if c.kind == 'opq':
                return c.clone(tok=tok, loc=None)
            return c
        return self.opq(tok, self.dep_union([it]), none=None)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fid, fn):
        out = []
        # method call on a value: receiver first
        for s, f in self.eval(n.func, st, fid, fn):
            argn = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            kwn = [k.value for k in n.keywords]
            star = any(isinstance(a, ast.Starred) for a in n.args)
            for s2, vs in self.evals(argn + kwn, s, fid, fn):
                args = vs[:len(argn)]
                kws = {}
                extra = []
                for k, v in zip(n.keywords, vs[len(argn):]):
                    if k.arg is None:
                        extra.append(v)
                        if v.kind == 'map':
                            for kk, vv in v.data:
                                if isinstance(kk, str):
                                    kws[kk] = vv
                    else:
                        kws[k.arg] = v
                if star:
                    new = []
                    for a, v in zip(n.args, args):
                        if isinstance(a, ast.Starred) and v.kind == 'seq':
                            new += list(v.data)
                        else:
                            new.append(v)
                    args = new
                out += self.call(f, args, kws, s2, n, fid, fn)
        if len(out) > 1:
            out = self.merge_v(out, n)
        return out

    def call(self, f, args, kws, st, n, fid, fn):
        k = f.kind
        if k == 'choice':
            pairs = []
            for w in f.data:
                pairs += self.call(w, args, kws, st, n, fid, fn)
            pairs = [(s, v.clone(deps=v.deps | f.deps)) for s, v in pairs]
            return self.merge_v(pairs, n)
        if k == 'bound':
            m, self_v = f.data
            if self.hooks is not None:
                r = self.hooks.client_call(self, m, self_v, args, kws, st, n, fn)
                if r is not None:
                    return r
                r = self.hooks.summary(self, m, self_v, args, kws, st)
                if r is not None:
                    return [(st, r)]
            r = self.call_func(m, None, [self_v] + args, kws, st, n, fn)
            if self.hooks is not None:
                r = self.hooks.after_method(self, m, self_v, r, n, fn)
            return r
        if k == 'func':
            func, closure = f.data
            r = self.call_func(func, closure, args, kws, st, n, fn)
            if f.deps:
                r = [(s, v.clone(deps=v.deps | f.deps)) for s, v in r]
            return r
        if k == 'class':
            return self.instantiate(f.data, args, kws, st, n, fn)
        if k == 'method':
            return self.call_value_method(f, args, kws, st, n, fid, fn)
        if k == 'ext':
            return self.call_ext(f.data, args, kws, st, n, fid, fn)
        allv = args + list(kws.values())
        return [(st, self.opq(self.t.mk('call', f.tok, tuple(v.tok for v in allv), str(n.lineno) if not allv else ''),
                              f.deps | self.dep_union(allv)))]

    def instantiate(self, cls, args, kws, st, n, fn):
        if cls in self.singletons:
            return [(st, self.obj(self.singletons[cls]))]
        allv = args + list(kws.values())
        if self.hooks is not None and self.hooks.track_class(cls):
            oid = self.new_obj(cls, 'new@%s.%d.%d' % (fn.mod.name, n.lineno, n.col_offset))
            init = cls.lookup(self.prog, 'methods', '__init__')
            o = self.obj(oid)
            if init is None:
                return [(st, o)]
            r = self.call_func(init, None, [o] + args, kws, st, n, fn)
            return [(s, o) for s, _ in r]
        return [(st, self.opq(self.t.mk('new', cls.mod.name, cls.name, tuple(v.tok for v in allv)),
                              self.dep_union(allv), none=False))]

    def call_value_method(self, f, args, kws, st, n, fid, fn):
        recv, attr = f.data
        allv = args + list(kws.values())
        t = self.t
        deps = f.deps | self.dep_union(allv)
        # predicates
        if attr in ('any', 'all') and recv.pred and recv.pred[0] == 'cmp':
            return [(st, self.quant(recv, attr))]
        if attr in ('copy', 'tolist', 'astype', '__copy__') and attr != 'astype':
            return [(st, recv.clone(loc=None))]
        if recv.kind == 'map':
            if attr == 'values':
                return [(st, V('seq', tuple(v for _, v in recv.data), recv.deps, t.mk('values', recv.tok), none=False))]
            if attr == 'keys':
                return [(st, V('seq', tuple(self.const(k) for k, _ in recv.data), recv.deps, t.mk('keys', recv.tok), none=False))]
            if attr == 'get' and args:
                v = self.index(recv, args[0], n.func if isinstance(n.func, ast.Subscript) else ast.Subscript(value=ast.Constant(value=0), slice=ast.Constant(value=0), ctx=ast.Load()))
                if args[0].kind == 'const' and any(k == args[0].data for k, _ in recv.data):
                    return [(st, v)]
                return [(st, v.clone(none=None, deps=v.deps | deps))]
        if attr in MUTATORS and isinstance(n, ast.Call):
            tok = t.mk('mutm', attr, recv.tok, tuple(v.tok for v in allv))
            if recv.loc is not None:
                st = self.mutate_loc(st, recv.loc, self.dep_union(allv), n, fn)
            else:
                tgt = n.func.value if isinstance(n.func, ast.Attribute) else None
                if isinstance(tgt, ast.Name):
                    st = st.copy()
                    nv = self.opq(tok, recv.deps | self.dep_union(allv), none=False)
                    self.set_existing(st, fid, tgt.id, nv)
            return [(st, self.opq(t.mk('mutret', tok), deps))]
        res = self.opq(t.mk('mcall', f.tok, tuple(v.tok for v in allv), tuple(sorted(kws))), deps)
        return [(st, res)]

    def set_existing(self, st, fid, name, v):
        f = fid
        while f is not None and f in st.frames:
            if name in st.frames[f]:
                st.setvar(f, name, v)
                return
            f = st.frames[f].get('<parent>')
        st.setvar(fid, name, v)

    def quant(self, arr, attr):
        """(a != b).any() and the like."""
        _, op, a, b = arr.pred
        if (op, attr) in (('!=', 'any'), ('==', 'all')):
            pred = ('cmp', op, a, b)
        else:
            pred = ('weak', a, b)
        return self.opq(self.t.mk('quant', attr, arr.tok), arr.deps, none=False, pred=pred)

    def call_ext(self, name, args, kws, st, n, fid, fn):
        t = self.t
        allv = args + list(kws.values())
        deps = self.dep_union(allv)
        if name in EXITS:
            return []
        base = name
        if base in TRANSPARENT_COPY and args:
            v = args[0]
            if v.kind == 'obj' and base.startswith('copy.'):
                oid = self.new_obj(self.cls_of.get(v.data), 'copy@%s.%d.%d' % (fn.mod.name, n.lineno, n.col_offset))
                if oid == v.data:
                    return [(st, v)]
                self.copy_of[oid] = v.data
                st = st.copy()
                for k in [k for k in st.heap if k[0] == oid]:
                    del st.heap[k]
                for (o, a), x in list(st.heap.items()):
                    if o == v.data:
                        st.heap[(oid, a)] = x
                return [(st, self.obj(oid))]
            if v.kind == 'seq':
                return [(st, self.opq(v.tok, v.deps, none=False))]
            if v.kind == 'const' and v.data is None:
                return [(st, self.opq(t.mk('arrNone'), none=False))]
            return [(st, v.clone(loc=None, none=False if v.kind != 'opq' or v.none is False else v.none))]
        if base in TRANSPARENT_ALIAS and args:
            return [(st, args[0])]
        if base in ('list', 'tuple', 'dict', 'set', 'sorted') and len(args) == 1 and base != 'sorted':
            v = args[0]
            if v.kind in ('opq', 'method'):
                return [(st, v.clone(loc=None, none=False))]
            return [(st, v.clone(loc=None))]
        if base == 'len' and len(args) == 1:
            d = deps
            if self.hooks is not None:
                d = self.hooks.attr_deps(args[0], 'shape', deps)
            return [(st, self.opq(t.mk('len', args[0].tok), d, none=False))]
        if base in ('numpy.any', 'numpy.all', 'any', 'all') and args and args[0].pred and args[0].pred[0] == 'cmp':
            return [(st, self.quant(args[0], base.split('.')[-1]))]
        if base in ('numpy.not_equal', 'numpy.equal') and len(args) == 2:
            return [(st, self.opq(t.mk('cmp', base, args[0].tok, args[1].tok), deps, none=False,
                                  pred=('cmp', '!=' if base.endswith('not_equal') else '==', args[0], args[1])))]
        if base in ('numpy.array_equal', 'numpy.array_equiv') and len(args) >= 2:
            return [(st, self.opq(t.mk('aeq', base, args[0].tok, args[1].tok), deps, none=False,
                                  pred=('cmp', '==', args[0], args[1])))]
        if base in ('numpy.allclose', 'numpy.isclose', 'math.isclose') and len(args) >= 2:
            return [(st, self.opq(t.mk('acl', args[0].tok, args[1].tok), deps, none=False,
                                  pred=('weak', args[0], args[1])))]
        if base == 'bool' and len(args) == 1:
            return [(st, self.opq(t.mk('bool', args[0].tok), deps, none=False, pred=args[0].pred or ('truth', args[0])))]
        if base == 'getattr' and len(args) >= 2 and args[1].kind == 'const' and isinstance(args[1].data, str):
            if args[0].kind in ('obj', 'choice', 'mod', 'ext', 'class'):
                return self.attr_of(args[0], args[1].data, st, n, fn)
        if base == 'setattr' and len(args) == 3 and args[0].kind == 'obj' and args[1].kind == 'const':
            return [(s, self.const(None)) for s in self.store_attr(args[0], args[1].data, args[2], st, n, fn)]
        if base == 'super':
            return [(st, self.opq(t.mk('super')))]
        if base == 'isinstance':
            return [(st, self.opq(t.mk('isinst', tuple(v.tok for v in allv)), deps, none=False))]
        if base == 'type' and len(args) == 1:
            return [(st, self.opq(t.mk('type', args[0].tok), deps, none=False))]
        if base in ('reversed', 'iter') and args:
            return [(st, args[0])]
        if base == 'map' and args and args[0].kind in ('func', 'bound', 'class'):
            it = self.iter_value(args[1], 'm%d' % n.lineno) if len(args) > 1 else self.const(None)
            r = self.call(args[0], [it], {}, st, n, fid, fn)
            return [(s, self.opq(t.mk('map', v.tok), v.deps | deps, none=False)) for s, v in r]
        if self.hooks is not None:
            self.hooks.on_ext(self, st, name, allv, n, fn)
        # a callback that closes over our objects is called
        for v in allv:
            if v.kind == 'bound' or (v.kind == 'func' and v.data[1] is not None):
                func = v.data[0]
                np_ = len(func.params()) - (1 if v.kind == 'bound' else 0)
                fake = [self.opq(t.mk('cbarg', str(i))) for i in range(np_)]
                r = self.call(v, fake, {}, st, n, fid, fn)
                if r:
                    rs = self.merge([st] + [s for s, _ in r], n)
                    st = rs[0]
        return [(st, self.opq(t.mk('ext', name, tuple(v.tok for v in allv), tuple(sorted(kws)),
                                   '%d.%d' % (n.lineno, n.col_offset) if not allv else ''), deps))]

    def call_func(self, func, closure, args, kws, st, n, caller):
        node = func.node
        # arguments
        inline = (closure is not None or self.inline_all or any(self.has_obj(a) for a in args) or
                  any(self.has_obj(a) for a in kws.values()))
        allv = args + list(kws.values())
        if inline and (len(self.stack) >= self.MAXDEPTH or sum(1 for f in self.stack if f.node is node) >= 2):
            inline = False
        if inline and self.hooks is not None and not self.hooks.inline(func):
            inline = False
        if not inline:
            return [(st, self.opq(self.t.mk('fcall', func.qual, tuple(v.tok for v in allv), tuple(sorted(kws))),
                                  self.dep_union(allv)))]
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'<parent>': closure}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        if a.vararg is not None:
            env[a.vararg.arg] = self.seq(rest)
        kwrest = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kws.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                kwrest.append((k, v))
        if a.kwarg is not None:
            env[a.kwarg.arg] = V('map', tuple(kwrest), self.dep_union([v for _, v in kwrest]),
                                 self.t.mk('map', tuple(v.tok for _, v in kwrest)), none=False)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        fid = next(self.fids)
        s = st.copy()
        for k in names + kwonly:
            if k not in env:
                if k in defaults:
                    dst = State()
                    dfid = next(self.fids)
                    dst.frames[dfid] = {'<parent>': None}
                    env[k] = self.eval(defaults[k], dst, dfid, func)[0][1]
                else:
                    env[k] = self.opq(self.t.mk('missing', func.qual, k))
        s.frames[fid] = env
        self.argstack.append({k: v for k, v in env.items() if isinstance(v, V)})
        try:
            if self.hooks is not None:
                self.hooks.on_call(self, func, s, n)
            return self.run_body(func, fid, s, n)
        finally:
            self.argstack.pop()

    def run_entry(self, func, args, st):
        """Run a function whatever its arguments are."""
        s = st.copy()
        fid = next(self.fids)
        names = func.params()
        s.frames[fid] = dict({'<parent>': None}, **dict(zip(names, args)))
        self.argstack.append(dict(zip(names, args)))
        try:
            return self.run_body(func, fid, s, func.node)
        finally:
            self.argstack.pop()

    def run_body(self, func, fid, s, n):
        node = func.node
        self.inlined.add(func.qual)
        self.stack.append(func)
        caller = self.stack[-2] if len(self.stack) > 1 else func
        self.callnodes.append(caller.where(n))
        self.sites.append('%s/%d.%d' % (self.sites[-1] if self.sites else '', getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)))
        pc = s.pc
        s.pc = EMPTY
        self.guards.append(set())
        try:
            if isinstance(node, ast.Lambda):
                rets = self.eval(node.body, s, fid, func)
            else:
                o = self.block(node.body, [s], fid, func)
                rets = o['ret'] + [(x, self.const(None)) for x in o['next']]
        finally:
            self.stack.pop()
            self.callnodes.pop()
            self.sites.pop()
            self.guards.pop()
        out = []
        several = len(set(v.tok for _, v in rets)) > 1
        isgen = not isinstance(node, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        for s2, v in rets:
            s2 = s2.copy()
            if v.deps is not None and not (v.kind in ('obj', 'func', 'bound', 'class')):
                extra = s2.pc
                if extra and several and not (v.kind == 'const' and v.data is None):
                    v = v.clone(deps=v.deps | extra)
            if isgen:
                v = self.opq(self.t.mk('gen', func.qual), s2.pc)
            s2.frames.pop(fid, None) if not self.keeps_frame(v, fid) else None
            s2.pc = pc
            out.append((s2, v))
        if self.hooks is not None:
            out = self.hooks.on_return(self, func, out, n)
        return self.merge_v(out, n)

    def keeps_frame(self, v, fid):
        if v.kind == 'func' and v.data[1] == fid:
            return True
        if v.kind in ('seq', 'choice'):
            return any(self.keeps_frame(x, fid) for x in v.data)
        return False

    # ------------------------------------------------------------ conditions
    def branch(self, test, st, fid, fn):
        """-> list of (state, truth, deps)"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            out = []
            cur = [(st, EMPTY)]
            for i, v in enumerate(test.values):
                last = i == len(test.values) - 1
                nxt = []
                for s, d in cur:
                    for s2, truth, d2 in self.branch(v, s, fid, fn):
                        dd = d | d2
                        if truth == isand and not last:
                            nxt.append((s2, dd))
                        else:
                            out.append((s2, truth, dd))
                cur = nxt
            return out
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(s, not b, d) for s, b, d in self.branch(test.operand, st, fid, fn)]
        out = []
        if self.hooks is not None:
            self.hooks.peek += 1
        try:
            ev = self.eval(test, st, fid, fn)
        finally:
            if self.hooks is not None:
                self.hooks.peek -= 1
        for s, v in ev:
            for s2, truth in self.decide(v, s):
                d = v.deps
                if self.hooks is not None:
                    d = self.hooks.guard_deps(v, d)
                out.append((s2, truth, d))
        return out

    def decide(self, v, st):
        if v.kind == 'const':
            try:
                return [(st, bool(v.data))]
            except Exception:
                return [(st, True), (st, False)]
        if v.pred is not None:
            return self.decide_pred(v.pred, st)
        return self.decide_pred(('truth', v), st)

    def decide_pred(self, p, st):
        k = p[0]
        if k == 'not':
            return [(s, not b) for s, b in self.decide_pred(p[1], st)]
        if k in ('and', 'or'):
            out = []
            cur = [st]
            for i, q in enumerate(p[1:]):
                nxt = []
                last = i == len(p) - 2
                for s in cur:
                    for s2, b in self.decide_pred(q, s):
                        if b == (k == 'and') and not last:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out
        if k in ('none', 'truth'):
            v = p[1]
            if v.kind == 'const':
                b = (v.data is None) if k == 'none' else bool(v.data)
                return [(st, b)]
            if v.pred is not None and k == 'truth':
                return self.decide_pred(v.pred, st)
            if v.none is True:
                return [(st, k == 'none')]
            if v.kind in ('obj', 'func', 'bound', 'class', 'mod', 'ext'):
                return [(st, k != 'none')]
            if k == 'none' and v.none is False:
                return [(st, False)]
            # refine the location
            out = []
            loc = v.loc
            s_none, s_some = st, st
            if loc is not None:
                cur = st.heap.get(loc)
                if cur is None:
                    cur = self.init_value(loc)
                if cur.tok == v.tok:
                    s_some = st.copy()
                    s_some.heap[loc] = cur.clone(none=False)
                    memo = self.hooks is not None and self.hooks.is_memo(loc)
                    if k == 'none' or (memo and v.none is not False):
                        s_none = st.copy()
                        s_none.heap[loc] = self.const(None).clone(loc=loc, tok=cur.tok)
                    elif v.none is False:
                        s_none = st
            # the same value held by local variables
            s_some = self.refine_vars(s_some, v, False)
            if k == 'none':
                s_none = self.refine_vars(s_none, v, True)
                return [(s_none, True), (s_some, False)]
            return [(s_some, True), (s_none, False)]
        if k == 'lencmp':
            return [(st, p[1] == '==')]
        if k == 'cmp':
            _, op, a, b = p
            if a.tok == b.tok and not (self.t.structs[a.tok][0] == 'free'):
                return [(st, op == '==')]
            f = frozenset((a.tok, b.tok))
            if f in st.facts:
                return [(st, op == '==')]
            if a.kind == 'const' and b.kind == 'const':
                return [(st, (a.data == b.data) == (op == '=='))]
            eq = st.copy()
            eq.facts = eq.facts | frozenset([f])
            return [(eq, op == '=='), (st, op != '==')]
        return [(st, True), (st, False)]

    def refine_vars(self, st, v, isnone):
        if v.kind != 'opq':
            return st
        s = None
        for fid, f in st.frames.items():
            g = None
            for n, x in f.items():
                if isinstance(x, V) and x.tok == v.tok and x.kind == 'opq' and x.none is None:
                    if g is None:
                        g = dict(f)
                    g[n] = self.const(None).clone(deps=x.deps) if isnone else x.clone(none=False)
            if g is not None:
                if s is None:
                    s = st.copy()
                s.frames[fid] = g
        return s or st

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, fid, fn):
        out = {'next': states, 'ret': [], 'brk': [], 'cont': []}
        for n in stmts:
            if not out['next']:
                break
            nxt = []
            for s in out['next']:
                o = self.stmt(n, s, fid, fn)
                nxt += o.get('next', [])
                for k in ('ret', 'brk', 'cont'):
                    out[k] += o.get(k, [])
            out['next'] = self.merge(nxt, n)
            if len(out['ret']) > 4:
                out['ret'] = self.merge_v(out['ret'], n)
        return out

    def stmt(self, n, st, fid, fn):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return {'next': [st]}
        return m(n, st, fid, fn)

    def s_Expr(self, n, st, fid, fn):
        out = []
        for s, v in self.eval(n.value, st, fid, fn):
            if isinstance(n.value, ast.Call) and v.kind not in ('obj', 'bound', 'func'):
                t = self.t.structs[v.tok]
                if not (isinstance(n.value.func, ast.Name) and n.value.func.id == 'print') and \
                        not (t[0] == 'fcall' and not self.prog.mutates(t[1])) and \
                        not (t[0] == 'ext' and t[1].startswith(PURE_EXT)):
                    s = self.side_effect(n.value, v.deps | s.pc, s, fid, fn)
            out.append(s)
        return {'next': self.merge(out, n)}

    def side_effect(self, call, deps, st, fid, fn):
        """a call made for its effect: what it was given may now be part of the objects it was given or called on."""
        roots = [(call.func.value, True)] if isinstance(call.func, ast.Attribute) else []
        roots += [(a, False) for a in call.args + [k.value for k in call.keywords]]
        s = None
        for r, recv in roots:
            while isinstance(r, (ast.Subscript, ast.Attribute)) or (isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute)):
                r = r.func if isinstance(r, ast.Call) else r.value
            if not isinstance(r, ast.Name):
                continue
            old = self.lookup(s or st, fid, r.id, fn)
            if old.kind in ('opq', 'method') and old.loc is None and (recv or not deps <= old.deps) \
                    and self.t.structs[old.tok][0] not in ('free', 'modval'):
                s = s or st.copy()
                tok = self.t.mk('eff', old.tok, '%d.%d' % (call.lineno, call.col_offset)) if recv else old.tok
                self.set_existing(s, fid, r.id, old.clone(kind='opq', tok=tok, deps=old.deps | deps))
        return s or st

    def s_Return(self, n, st, fid, fn):
        if n.value is None:
            return {'ret': [(st, self.const(None))]}
        out = self.eval(n.value, st, fid, fn)
        if self.hooks is not None:
            out = [(s, self.hooks.on_returned_value(self, s, v, n, fn)) for s, v in out]
        return {'ret': out}

    def s_Raise(self, n, st, fid, fn):
        return {}

    def s_Pass(self, n, st, fid, fn):
        return {'next': [st]}

    def s_Break(self, n, st, fid, fn):
        return {'brk': [st]}

    def s_Continue(self, n, st, fid, fn):
        return {'cont': [st]}

    def s_Assert(self, n, st, fid, fn):
        return {'next': [s for s, b, _ in self.branch(n.test, st, fid, fn) if b]}

    def s_Import(self, n, st, fid, fn):
        st = st.copy()
        table = {}
        fn.mod.add_import(n, table)
        for k, imp in table.items():
            v = self.from_resolved(self.prog.resolve_import(imp))
            if v is not None:
                st.setvar(fid, k, v)
        return {'next': [st]}

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, fid, fn):
        st = st.copy()
        f = Func(fn.mod, n, fn.cls, fn)
        st.setvar(fid, n.name, V('func', (f, fid), EMPTY, self.t.mk('func', f.qual, str(n.lineno)), none=False))
        return {'next': [st]}

    def s_Assign(self, n, st, fid, fn):
        out = []
        for s, v in self.eval(n.value, st, fid, fn):
            cur = [s]
            for t in n.targets:
                nxt = []
                for s2 in cur:
                    nxt += self.assign(t, v, s2, fid, fn, n)
                cur = nxt
            out += cur
        return {'next': out}

    def s_AnnAssign(self, n, st, fid, fn):
        if n.value is None:
            return {'next': [st]}
        out = []
        for s, v in self.eval(n.value, st, fid, fn):
            out += self.assign(n.target, v, s, fid, fn, n)
        return {'next': out}

    def assign_target_raw(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.setvar(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if v.kind == 'seq' and len(v.data) == len(t.elts):
                    self.assign_target_raw(e, v.data[i], st, fid)
                else:
                    w = self.opq(self.t.mk('idx', v.tok, self.const(i).tok), v.deps)
                    self.assign_target_raw(e.value if isinstance(e, ast.Starred) else e, w, st, fid)

    def assign(self, t, v, st, fid, fn, node):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.setvar(fid, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for i, e in enumerate(t.elts):
                if v.kind == 'seq' and len(v.data) == len(t.elts):
                    w = v.data[i]
                else:
                    w = self.opq(self.t.mk('idx', v.tok, self.const(i).tok), v.deps)
                nxt = []
                for s in cur:
                    nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, w, s, fid, fn, node)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.eval_quiet(t.value, st, fid, fn):
                out += self.store_attr(o, t.attr, v, s, node, fn)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (b, i) in self.evals_quiet([t.value, t.slice], st, fid, fn):
                if b.kind == 'objdict' and i.kind == 'const' and isinstance(i.data, str):
                    out.append(self.set_attr_raw(s, b.data, i.data, v, node, fn))
                    continue
                vd = v.deps | i.deps
                if b.loc is not None:
                    out.append(self.mutate_loc(s, b.loc, vd, node, fn))
                else:
                    s = s.copy()
                    root = t.value
                    while isinstance(root, (ast.Subscript, ast.Attribute)):
                        root = root.value
                    if isinstance(root, ast.Name):
                        old = self.lookup(s, fid, root.id, fn)
                        if old.kind in ('opq', 'seq', 'map', 'const', 'method'):
                            nv = V('opq', None, old.deps | vd,
                                   self.t.mk('mut', old.tok, v.tok, '%d.%d' % (node.lineno, node.col_offset)), old.loc, False)
                            if old.kind == 'map' and i.kind == 'const' and t.value is root:
                                items = [(k, w) for k, w in old.data if k != i.data] + [(i.data, v)]
                                nv = V('map', tuple(items), old.deps | vd, nv.tok, None, False)
                            self.set_existing(s, fid, root.id, nv)
                    out.append(s)
            return out
        return [st]

    def eval_quiet(self, n, st, fid, fn):
        return self.eval(n, st, fid, fn)

    def evals_quiet(self, ns, st, fid, fn):
        if self.hooks is not None:
            self.hooks.peek += 1
        try:
            return self.evals(ns, st, fid, fn)
        finally:
            if self.hooks is not None:
                self.hooks.peek -= 1

    def store_attr(self, o, attr, v, st, node, fn):
        if o.kind == 'choice':
            out = []
            for w in o.data:
                out += self.store_attr(w, attr, v, st, node, fn)
            return out + [st]
        if o.kind != 'obj':
            if o.loc is not None:
                return [self.mutate_loc(st, o.loc, v.deps, node, fn)]
            return [st]
        cls = self.cls_of.get(o.data)
        if cls is not None:
            sfn = cls.lookup(self.prog, 'setters', attr)
            if sfn is not None:
                r = self.call_func(sfn, None, [o, v], {}, st, node, fn)
                if self.hooks is not None:
                    r = self.hooks.after_method(self, sfn, o, r, node, fn)
                return [s for s, _ in r]
        return [self.set_attr_raw(st, o.data, attr, v, node, fn)]

    def s_AugAssign(self, n, st, fid, fn):
        out = []
        for s, v in self.eval(n.value, st, fid, fn):
            if isinstance(n.target, ast.Name):
                old = self.lookup(s, fid, n.target.id, fn)
                nv = self.opq(self.t.mk('aug', type(n.op).__name__, old.tok, v.tok), old.deps | v.deps, none=False)
                if old.loc is not None and self.hooks is not None and self.hooks.array_like(old):
                    s = self.mutate_loc(s, old.loc, v.deps, n, fn)
                    out.append(s)
                    continue
                s = s.copy()
                self.set_existing(s, fid, n.target.id, nv)
                out.append(s)
            elif isinstance(n.target, ast.Attribute):
                for s2, o in self.eval(n.target.value, s, fid, fn):
                    for s3, old in self.attr_of(o, n.target.attr, s2, n, fn):
                        nv = self.opq(self.t.mk('aug', type(n.op).__name__, old.tok, v.tok), old.deps | v.deps, none=False)
                        out += self.store_attr(o, n.target.attr, nv, s3, n, fn)
            else:
                out += self.assign(n.target, v, s, fid, fn, n)
        return {'next': out}

    def s_Delete(self, n, st, fid, fn):
        cur = [st]
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                nxt = []
                for s in cur:
                    for s2, o in self.eval(t.value, s, fid, fn):
                        nxt += self.store_attr(o, t.attr, self.const(None), s2, n, fn)
                cur = nxt
        return {'next': cur}

    def guard_locs(self, st, s):
        out = set()
        for loc, v in s.heap.items():
            if v.kind == 'const' and v.data is None and self.t.structs[v.tok][0] != 'const':
                w = st.heap.get(loc)
                if w is None or not (w.kind == 'const' and w.data is None):
                    out.add(loc)
        return out

    def s_If(self, n, st, fid, fn):
        out = {'next': [], 'ret': [], 'brk': [], 'cont': []}
        br = self.branch(n.test, st, fid, fn)
        pc0 = st.pc
        alldeps = EMPTY
        for _, _, d in br:
            alldeps |= d
        returned = False
        gl = {}
        nx = {}
        mine = self.guards[-1] if self.guards else set()
        for truth in (True, False):
            sel = []
            gl[truth] = set()
            nx[truth] = []
            for s, b, d in br:
                if b == truth:
                    gl[truth] |= self.guard_locs(st, s)
                    s = s.copy()
                    s.pc = s.pc | alldeps
                    sel.append(s)
            if not sel:
                continue
            sel = self.merge(sel, n)
            add = gl[truth] - mine
            mine |= add
            o = self.block(n.body if truth else n.orelse, sel, fid, fn)
            mine -= add
            nx[truth] = o['next']
            for k in ('ret', 'brk', 'cont'):
                out[k] += o[k]
            if o['ret'] or o['brk'] or o['cont']:
                returned = True
        for truth in (True, False):
            if nx[truth] and not nx[not truth]:
                mine |= gl[truth]        # the other side has left the function
        nxt = []
        for truth in (True, False):
            for s in nx[truth]:
                s = s.copy()
                s.pc = pc0 | (alldeps if returned else EMPTY)
                nxt.append(s)
        out['next'] = self.merge(nxt, n, None, alldeps)
        if self.hooks is not None and nx[True] and nx[False]:
            self.hooks.on_branch_join(self, nx[True], nx[False], alldeps)
        return out

    def s_With(self, n, st, fid, fn):
        cur = [st]
        for it in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.eval(it.context_expr, s, fid, fn):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v.clone(none=False), s2, fid, fn, n)
                    else:
                        nxt.append(s2)
            cur = nxt
        return self.block(n.body, self.merge(cur, n), fid, fn)

    def s_Try(self, n, st, fid, fn):
        o = self.block(n.body, [st], fid, fn)
        out = {'next': [], 'ret': list(o['ret']), 'brk': list(o['brk']), 'cont': list(o['cont'])}
        if n.orelse and o['next']:
            o2 = self.block(n.orelse, o['next'], fid, fn)
            out['next'] += o2['next']
            for k in ('ret', 'brk', 'cont'):
                out[k] += o2[k]
        else:
            out['next'] += o['next']
        hstart = self.merge([st] + list(o['next']), n)
        for h in n.handlers:
            hs = hstart
            if h.name:
                hs = []
                for s in hstart:
                    s = s.copy()
                    s.setvar(fid, h.name, self.opq(self.t.mk('exc', str(h.lineno)), none=False))
                    hs.append(s)
            o3 = self.block(h.body, hs, fid, fn)
            for k in ('next', 'ret', 'brk', 'cont'):
                out[k] += o3[k]
        out['next'] = self.merge(out['next'], n)
        if n.finalbody:
            fin = {'next': [], 'ret': [], 'brk': [], 'cont': []}
            o4 = self.block(n.finalbody, out['next'], fid, fn) if out['next'] else {'next': [], 'ret': [], 'brk': [], 'cont': []}
            for k in fin:
                fin[k] += o4[k]
            for s, v in out['ret']:
                o5 = self.block(n.finalbody, [s], fid, fn)
                fin['ret'] += [(x, v) for x in o5['next']] + o5['ret']
            for k in ('brk', 'cont'):
                for s in out[k]:
                    o5 = self.block(n.finalbody, [s], fid, fn)
                    fin[k] += o5['next']
                    fin['ret'] += o5['ret']
            return fin
        return out

    def s_For(self, n, st, fid, fn):
        out = {'next': [], 'ret': [], 'brk': [], 'cont': []}
        its = self.eval(n.iter, st, fid, fn)
        for s, it in its:
            if it.kind == 'seq' and 0 < len(it.data) <= 16:
                cur = [s]
                brk = []
                for e in it.data:
                    nxt = []
                    for s2 in cur:
                        for s3 in self.assign(n.target, e, s2, fid, fn, n):
                            o = self.block(n.body, [s3], fid, fn)
                            nxt += o['next'] + o['cont']
                            brk += o['brk']
                            out['ret'] += o['ret']
                    cur = self.merge(nxt, n)
                    if not cur:
                        break
                if n.orelse and cur:
                    o = self.block(n.orelse, cur, fid, fn)
                    for k in ('ret', 'brk', 'cont'):
                        out[k] += o[k]
                    cur = o['next']
                out['next'] += cur + brk
                continue
            r = self.loop(n, [s], fid, fn, it)
            for k in out:
                out[k] += r[k]
        out['next'] = self.merge(out['next'], n)
        return out

    def s_While(self, n, st, fid, fn):
        return self.loop(n, [st], fid, fn, None)

    s_AsyncFor = s_For

    def loop(self, n, heads, fid, fn, it):
        loopid = self.loopid(n, fn)
        self.loopstack.append(loopid)
        try:
            return self.loop1(n, heads, fid, fn, it)
        finally:
            self.loopstack.pop()

    def loopid(self, n, fn):
        return '%s.%d.%d@%s' % (fn.qual, n.lineno, n.col_offset, self.sites[-1] if self.sites else '')

    def loop1(self, n, heads, fid, fn, it):
        loopid = self.loopid(n, fn)
        out = {'next': [], 'ret': [], 'brk': [], 'cont': []}
        exits = []
        seen = {}
        work = list(heads)
        ldeps = it.deps if it is not None else EMPTY
        for rounds in range(12):
            new = []
            for s in self.merge(work, n, loopid if rounds else None, ldeps):
                k = self.key(s)
                if k in seen:
                    j = self.join(seen[k], s, n, loopid, ldeps)
                    if self.key(j) != k:
                        j = s
                    if self.same(j, seen[k]):
                        continue
                    seen[k] = j
                    new.append(j)
                else:
                    seen[k] = s
                    new.append(s)
            if not new:
                break
            if self.hooks is not None:
                for s in new:
                    self.hooks.on_loop_head(self, s, n, fn)
            work = []
            for s in new:
                entered = []
                pc0 = s.pc
                if it is not None:
                    exits.append(s)
                    s2 = s.copy()
                    s2.pc = s2.pc | it.deps
                    entered += self.assign(n.target, self.iter_value(it, loopid), s2, fid, fn, n)
                else:
                    for s2, b, d in self.branch(n.test, s, fid, fn):
                        s2 = s2.copy()
                        ldeps = ldeps | d
                        if b:
                            s2.pc = s2.pc | d
                            entered.append(s2)
                        else:
                            exits.append(s2)
                if not entered:
                    continue
                o = self.block(n.body, self.merge(entered, n), fid, fn)
                out['ret'] += o['ret']
                for b in o['brk']:
                    b = b.copy()
                    ldeps = ldeps | (b.pc - pc0)
                    b.pc = pc0
                    exits.append(b)
                for s3 in o['next'] + o['cont']:
                    s3 = self.rename_prev(s3, loopid)
                    ldeps = ldeps | (s3.pc - pc0)
                    s3.pc = pc0
                    work.append(s3)
            if not work:
                break
        else:
            pass
        exits = self.merge([self.strip_facts(s, loopid) for s in exits], n, loopid, ldeps)
        if n.orelse and exits:
            o = self.block(n.orelse, exits, fid, fn)
            for k in ('ret', 'brk', 'cont'):
                out[k] += o[k]
            exits = o['next']
        out['next'] = exits
        return out

    def strip_facts(self, s, loopid):
        return s

    def same(self, a, b):
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is None or w.tok != v.tok or w.deps != v.deps or w.none != v.none:
                return False
        for fid, f in a.frames.items():
            g = b.frames.get(fid)
            if g is f:
                continue
            if g is None:
                return False
            for n, v in f.items():
                if n == '<parent>':
                    continue
                w = g.get(n)
                if w is None or w.tok != v.tok or w.deps != v.deps or w.none != v.none:
                    return False
        return a.snap == b.snap

    def prev_tok(self, tok, loopid):
        if loopid not in self.t.loops[tok]:
            return tok
        st = self.t.structs[tok]
        if st[0] == 'prev' and st[1] == loopid:
            return tok
        if st[0] == 'loopphi' and st[1] == loopid:
            return self.t.get(('prev', loopid, 'phi', st[2]), self.t.loops[tok])
        # one 'previous iteration' value per structure
        return self.t.get(('prev', loopid, tok), self.t.loops[tok])

    def rename_prev(self, s, loopid):
        s = s.copy()
        p = lambda tk: self.prev_tok(tk, loopid)
        # agreement that rests on a comparison is noted in the snapshot before the comparison is forgotten
        for m in (self.hooks.tracked() if self.hooks is not None else ()):
            sn = s.snap.get(m)
            if sn == 'USER':
                continue
            d = None
            for b in self.hooks.bases(m):
                a, c = self.snap_tok(s, m, b), self.cur_tok(s, b)
                if a != c and frozenset((a, c)) in s.facts and ('same', b, a) not in s.marks:
                    d = d or dict(sn or {})
                    d[b] = c
            if d is not None:
                s.snap[m] = d
        for k, v in list(s.heap.items()):
            nt = p(v.tok)
            if nt != v.tok:
                s.heap[k] = v.clone(tok=nt, kind='opq' if v.kind not in ('obj', 'choice', 'bound', 'func') else v.kind)
        for fid, f in list(s.frames.items()):
            g = None
            for n, v in f.items():
                if n == '<parent>':
                    continue
                nt = p(v.tok)
                if nt != v.tok and v.kind not in ('obj', 'bound', 'func'):
                    if g is None:
                        g = dict(f)
                    g[n] = v.clone(tok=nt, kind='opq' if v.kind not in ('choice',) else v.kind)
            if g is not None:
                s.frames[fid] = g
        for m, sn in list(s.snap.items()):
            if sn == 'USER':
                continue
            d = {b: p(tk) for b, tk in sn.items()}
            if d != sn:
                s.snap[m] = d
        s.marks = frozenset((x[0], x[1], p(x[2])) if x[0] == 'same' else x for x in s.marks)
        s.facts = frozenset(f for f in s.facts if not any(loopid in self.t.loops[x] for x in f))
        return s
