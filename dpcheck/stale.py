"""Invalidation analysis: which remembered results (memos) depend on which settings, and whether every public
operation leaves each of them empty or in agreement with the settings it was computed from.

Inductive invariant, proved per public method and per memo m:  at entry m is None or was computed from the current
values of everything it depends on (D(m));  at every exit the same holds.
"""
import ast
import sys

from .engine import Engine, State, V, EMPTY, Limit, contains
from .report import AnalysisBroken

sys.setrecursionlimit(20000)

ARRAY_FUNCS = {'numpy.' + x for x in
               'array zeros empty ones dot average sum zeros_like empty_like ones_like gradient memmap linspace arange '
               'full concatenate hstack vstack stack multiply divide add subtract around'.split()}


class Hooks:
    """Common part: objects, memos, initial values."""

    def __init__(self, w):
        self.w = w
        self.peek = 0
        self.memo_none = False      # D-run: pure memos start empty
        self.discover = False

    def tracked(self):
        return ()

    def bases(self, m):
        return ()

    def initial(self, engine, loc):
        w = self.w
        if loc in w.types:
            return engine.obj(w.types[loc])
        if self.memo_none and loc in w.pure:
            return engine.const(None).clone(loc=loc)
        return None

    def is_attr(self, loc):
        return loc in self.w.attrs

    def is_memo(self, loc):
        return self.discover or loc in self.w.memos

    def droppable(self, loc):
        """data an object holds (not a setting): dropping it is not a matter of its value."""
        return loc[0] == 'SELF' and loc[1].startswith('_')

    def on_write(self, engine, st, loc, old, new, node, fn):
        pass

    def on_mutate(self, engine, st, loc, old, new, node, fn):
        pass

    def on_read(self, engine, st, loc, v, node, fn):
        return v

    def on_call(self, engine, func, st, node):
        pass

    def client_call(self, engine, func, self_v, args, kws, st, node, fn):
        return None

    def on_return(self, engine, func, pairs, node):
        return pairs

    def on_returned_value(self, engine, st, v, node, fn):
        return v

    def on_ext(self, engine, st, name, args, node, fn):
        pass

    def on_loop_head(self, engine, st, node, fn):
        pass

    def after_method(self, engine, func, self_v, pairs, node, fn):
        return pairs

    def attr_deps(self, v, attr, deps):
        # the number of dimensions: structure cell and positions are always N x 3
        if attr == 'shape':
            return deps - self.w.dimlocs
        return deps

    def guard_deps(self, v, deps):
        p = v.pred
        while p is not None and p[0] == 'not':
            p = p[1]
        if p is None and v.loc is not None and v.loc in self.w.memos:
            return EMPTY
        if p is not None and p[0] in ('none', 'truth') and isinstance(p[1], V):
            x = p[1]
            if x.loc is not None and x.loc in self.w.pure:
                return EMPTY
        return deps

    def inline(self, func):
        return True

    def on_branch_join(self, engine, a, b, deps):
        pass

    def summary(self, engine, func, self_v, args, kws, st):
        w = self.w
        root = self_v.data
        while root in engine.copy_of:
            root = engine.copy_of[root]
        sm = w.summaries.get((root, id(func.node)))
        if sm is None or root in w.inline_oids or (root, id(func.node)) in w.plain:
            return None
        t = engine.t
        vers = []
        deps = EMPTY
        for b in sm:
            b = (self_v.data, b[1]) if b[0] == root else b
            v = engine.get_attr_raw(st, *b)
            vers.append(v.tok)
            deps |= v.deps
        vers = tuple(vers)
        toks = []
        for v in args + list(kws.values()):
            deps |= v.deps
            toks.append(v.tok)
        return engine.opq(t.mk('query', func.qual, tuple(toks), tuple(sorted(kws)), vers), deps)

    def track_class(self, cls):
        return cls in self.w.tracked_classes

    def array_like(self, v):
        return v.loc is not None and v.loc in self.w.array_memos


def engine_has_obj(v, depth=0):
    if v.kind in ('obj', 'bound', 'func'):
        return True
    if v.kind in ('seq', 'choice') and depth < 4:
        return any(engine_has_obj(x, depth + 1) for x in v.data)
    return False


class World:
    """The objects of the analysis and what is known of their attributes."""

    SPEC = (('SELF', 'dynaphopy', 'Quasiparticle'), ('PAR', 'dynaphopy.parameters', 'Parameters'),
            ('DYN', 'dynaphopy.dynamics', 'Dynamics'), ('STR', 'dynaphopy.atoms', 'Structure'))

    def __init__(self, prog):
        self.prog = prog
        self.classes = {}
        for oid, mod, name in self.SPEC:
            c = prog.cls(mod, name)
            if c is None:
                raise AnalysisBroken('class %s.%s not found' % (mod, name))
            self.classes[oid] = c
        self.tracked_classes = set()
        self.types = {}
        self.attrs = set()
        self.memos = set()
        self.pure = set()
        self.dimlocs = EMPTY
        self.array_memos = set()
        self.D = {}
        self.keys = {}             # memo -> attributes recording the argument it was computed for
        self.keywrites = {}
        self.fillsites = {}
        self.fill_tokens = {}
        self.argdeps = {}
        self.sites = {}
        self.writes_of = {}        # (oid, method) -> set of locations written / mutated
        self.fills_of = {}         # (oid, method) -> memos it may compute
        self.inlined = set()
        self.steps = 0
        self.limits = []
        self.written = {}
        self.summaries = {}
        self.plain = set()         # queries that hand out one attribute as it is
        self.inline_oids = set()
        self.collect_attrs()
        self.constructors()
        self.dimlocs = frozenset(l for l in self.attrs if l[0] == 'STR' and l[1].strip('_') == 'cell')
        self.masks = {}            # memo -> data that, when present, is used in its place
        self.silent = {l for l in self.attrs if l[0] == 'PAR' and l[1].strip('_') == 'silent'}
        for oid in ('STR', 'DYN', 'SELF'):
            self.find_memos(oid)
            self.dependencies(oid)

    # -------------------------------------------------------------- helpers
    def engine(self, hooks, key=None, budget=3000000):
        e = Engine(self.prog, key, hooks, budget)
        for oid, c in self.classes.items():
            e.cls_of[oid] = c
        e.singletons = {self.classes['PAR']: 'PAR'}
        return e

    def public_methods(self, oid):
        c = self.classes[oid]
        out = []
        for name, f in sorted(c.methods.items()):
            if not name.startswith('_'):
                out.append(f)
        for name, f in sorted(c.getters.items()):
            if not name.startswith('_'):
                out.append(f)
        for name, f in sorted(c.setters.items()):
            if not name.startswith('_'):
                out.append(f)
        seen, res = set(), []
        for f in out:
            if id(f.node) not in seen:
                seen.add(id(f.node))
                res.append(f)
        return res

    def run(self, e, oid, func, st=None):
        """Run one public method with unknown arguments."""
        self_v = e.obj(oid)
        args = [self_v]
        names = func.params()
        if func.is_static():
            args = []
        else:
            names = names[1:]
        for n in names:
            args.append(e.opq(e.t.mk('arg', func.qual, n), frozenset([('ARG:' + func.qual, n)])))
        if st is None:
            st = State()
            st.frames[0] = {'<parent>': None}
        kws = {x.arg: e.opq(e.t.mk('arg', func.qual, x.arg), frozenset([('ARG:' + func.qual, x.arg)]))
               for x in func.node.args.kwonlyargs}
        e.inline_all = False
        r = e.call_func(func, None, args, kws, st, func.node, func)
        self.inlined |= e.inlined
        self.steps += e.steps
        return r

    # -------------------------------------------------------------- attributes
    def collect_attrs(self):
        for oid, c in self.classes.items():
            for k in c.mro(self.prog):
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                            and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        if k.lookup(self.prog, 'setters', n.attr) is None:
                            self.attrs.add((oid, n.attr))

    def constructors(self):
        """Types of the attributes that hold our objects, and the value each attribute starts with."""
        self.start = {}
        h = Hooks(self)
        for oid in ('PAR', 'STR', 'DYN', 'SELF'):
            e = self.engine(h)
            c = self.classes[oid]
            init = c.lookup(self.prog, 'methods', '__init__')
            if init is None:
                continue
            args = [e.obj(oid)]
            names = init.params()[1:]
            if oid == 'SELF':
                given = {0: 'DYN'}
            elif oid == 'DYN':
                given = {0: 'STR'}
            else:
                given = {}
            for i, n in enumerate(names):
                if i in given:
                    args.append(e.obj(given[i]))
                else:
                    args.append(e.opq(e.t.mk('arg', init.qual, n), frozenset([('ARG:' + init.qual, n)])))
            st = State()
            st.frames[0] = {'<parent>': None}
            try:
                r = e.call_func(init, None, args, {}, st, init.node, init)
            except Limit:
                raise AnalysisBroken('constructor of %s not analysable' % c.name)
            for s, _ in r:
                for loc, v in s.heap.items():
                    if loc[0] != oid:
                        continue
                    self.attrs.add(loc)
                    for w in (v.data if v.kind == 'choice' else [v]):
                        if w.kind == 'obj' and w.data in self.classes:
                            self.types[loc] = w.data
                        else:
                            self.start.setdefault(loc, []).append(w)

    # -------------------------------------------------------------- memos
    def find_memos(self, oid):
        """An attribute assigned (not None) where a test has just shown it to be None."""
        w = self

        class Disc(Hooks):
            def on_write(self, engine, st, loc, old, new, node, fn):
                if fn.name == '__init__':
                    return
                if new.kind == 'const' and new.data is None:
                    return
                w.written.setdefault(loc, []).append((fn.name, new, engine))
                if loc[0] in w.classes and any(loc in g and f.cls is not None for g, f in zip(engine.guards, engine.stack)) \
                        and engine.t.structs[new.tok][0] != 'arg':
                    w.memos.add(loc)

        h = Disc(self)
        h.discover = True
        for f in self.public_methods(oid):
            e = self.engine(h)
            try:
                self.run(e, oid, f)
            except Limit:
                self.limits.append(('discovery', f.qual))
        for m in [m for m in self.memos if m[0] == oid]:
            st = self.start.get(m, [])
            if st and all(v.kind == 'const' and v.data is None for v in st) and not self.user_assigned(m):
                self.pure.add(m)

    def user_assigned(self, m):
        """assigned just what a setter was given."""
        for name, v, e in self.written.get(m, []):
            if e.t.structs[v.tok][0] == 'arg':
                return True
        return False

    # -------------------------------------------------------------- dependencies
    def dependencies(self, oid):
        w = self

        fills = {}          # (memo, filling function) -> {depth: set of dependencies}
        joins = {}

        class Dep(Hooks):
            def on_write(self, engine, st, loc, old, new, node, fn):
                w.cur_writes.add(loc)
                if fn.name != '__init__' and loc not in w.memos:
                    w.note_key(engine, loc, new, fn)
                if loc not in w.memos or fn.name == '__init__':
                    return
                if new.kind == 'const' and new.data is None:
                    return
                if engine.t.structs[new.tok][0] == 'arg':
                    return
                w.cur_fills.add(loc)
                g = frozenset(l for gs in engine.guards for l in gs if self.droppable(l) and l not in w.memos)
                w.masks[loc] = w.masks[loc] & g if loc in w.masks else g
                self.add(fills, engine, loc, fn, new.deps)
                w.fillsites.setdefault(loc, set()).add(fn.qual)
                w.note_array(engine, loc, new)

            def on_mutate(self, engine, st, loc, old, new, node, fn):
                w.cur_writes.add(loc)
                if loc in w.memos:
                    self.add(fills, engine, loc, fn, new.deps)

            def add(self, table, engine, loc, fn, deps):
                t = table.setdefault((loc, fn.qual), {})
                d = len(engine.stack)
                t[d] = t.get(d, EMPTY) | deps

            def on_branch_join(self, engine, a, b, deps):
                if not deps:
                    return
                for m in w.memos:
                    ta = {s.heap[m].tok for s in a if m in s.heap and s.heap[m].none is not True}
                    tb = {s.heap[m].tok for s in b if m in s.heap and s.heap[m].none is not True}
                    if ta and tb and ta != tb:
                        self.add(joins, engine, m, engine.stack[-1], deps)

        h = Dep(self)
        h.memo_none = True
        rets = {}
        for f in self.public_methods(oid):
            e = self.engine(h)
            w.cur_writes = set()
            w.cur_fills = set()
            try:
                rets[f] = (self.run(e, oid, f), w.cur_writes)
            except Limit:
                self.limits.append(('dependencies', f.qual))
            self.writes_of[(oid, f.qual)] = w.cur_writes
            self.fills_of[(oid, f.qual)] = w.cur_fills
        # a filling function is judged where it is entered most directly: there the settings are the caller's
        for (m, q), t in fills.items():
            self.D.setdefault(m, set()).update(d for d in t[min(t)] if d != m)
        for (m, q), t in joins.items():
            for (m2, q2), t2 in fills.items():
                if m2 == m and (q == q2 or (q2.split('.')[-1].startswith('_') and min(t) == min(t2) - 1)):
                    self.D[m].update(d for d in t[min(t)] if d != m)
        # an attribute that only ever records the argument a memo was last computed for is part of the memo (see C03)
        for m in [m for m in self.D if m[0] == oid]:
            for k in [k for k in self.D[m] if k[0] == oid and k in self.keywrites]:
                if self.keywrites[k] and self.keywrites[k] <= self.fillsites.get(m, set()):
                    self.keys.setdefault(m, set()).add(k)
        keys = set().union(*self.keys.values()) if self.keys else set()
        for m in self.D:
            self.D[m] -= keys
        for m in [m for m in self.D if m[0] == oid or m[0] == 'PAR']:
            self.argdeps[m] = {d for d in self.D[m] if d[0].startswith('ARG:')}
            self.D[m] = self.clean(self.D[m], m)
        # queries: no setting is written and no object is handed out
        for f, (r, wr) in rets.items():
            if oid not in ('STR', 'DYN') or not r:
                continue
            if any(l not in self.memos for l in wr):
                continue
            if any(w2.kind not in ('opq', 'const', 'seq', 'map', 'method') or engine_has_obj(v) for _, v in r for w2 in [v]):
                continue
            if not wr and len({v.loc for _, v in r}) == 1 and r[0][1].loc is not None and \
                    all(not s2.heap.get(v.loc) or s2.heap[v.loc].tok == v.tok for s2, v in r):
                self.plain.add((oid, id(f.node)))
            deps = set()
            for _, v in r:
                deps |= v.deps
            self.summaries[(oid, id(f.node))] = tuple(sorted(self.clean(deps, None)))

    def clean(self, deps, m):
        """The settings and data among a set of dependencies (remembered results replaced by their own)."""
        out = set()
        for d in deps:
            if d not in self.attrs or d in self.types or d == m or d in self.silent:
                continue
            if d in self.pure:
                out |= {x for x in self.D.get(d, ()) if x in self.attrs and x not in self.pure and x != m}
                continue
            out.add(d)
            if d in self.memos:
                out |= {x for x in self.D.get(d, ()) if x in self.attrs and x not in self.pure and x != m}
        return out - self.silent

    def note_key(self, engine, loc, v, fn):
        q = self.keywrites.setdefault(loc, set())
        if v.kind == 'const' and v.data is None:
            return
        args = engine.argstack[-1] if engine.argstack else {}
        if any(contains(engine.t, v.tok, a.tok) for n, a in args.items() if n != 'self'):
            q.add(fn.qual)
        else:
            q.add('<other>')

    def note_array(self, engine, loc, v):
        vs = [v]
        if v.kind == 'map':
            vs = [x for _, x in v.data]
            self.array_memos.add(loc)
        for x in vs:
            s = engine.t.structs[x.tok]
            if s[0] == 'ext' and s[1] in ARRAY_FUNCS:
                self.array_memos.add(loc)
