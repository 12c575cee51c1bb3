"""Status runs: every public operation, per memo, keeps the invariant 'empty or computed from the present settings'."""
from .engine import EMPTY, Limit, State, V
from .stale import Hooks, World


class Status(Hooks):
    """Tracks one memo m.  Violations are collected as (rule, key, where, text)."""

    def __init__(self, w, m, bases=None, report=None):
        Hooks.__init__(self, w)
        self.m = m
        self.b = tuple(sorted(bases if bases is not None else w.D.get(m, ())))
        self.bad = {}
        self.method = ''
        self.start_none = set()
        self.mask = w.masks.get(m, EMPTY)

    def tracked(self):
        return (self.m,)

    def bases(self, m):
        return self.b if m == self.m else ()

    def initial(self, engine, loc):
        if loc in self.start_none:
            return engine.const(None).clone(loc=loc)
        return Hooks.initial(self, engine, loc)

    # ---------------------------------------------------------------- status of the memo
    def value(self, engine, st):
        v = st.heap.get(self.m)
        return v if v is not None else engine.init_value(self.m)

    def stale(self, engine, st):
        """the bases the remembered value no longer agrees with."""
        v = self.value(engine, st)
        if v.none is True:
            return EMPTY
        sn = st.snap.get(self.m)
        if sn == 'USER':
            return EMPTY
        out = set()
        for b in self.b:
            s = engine.snap_tok(st, self.m, b)
            c = engine.cur_tok(st, b)
            if engine.fresh(st, self.m, b, s, c) or self.same_range(engine, st, b, c):
                continue
            out.add(b)
        return frozenset(out)

    def same_range(self, engine, st, b, c):
        """b is the step of an equally spaced grid: a grid built with the new step that equals the old grid has the
        old step."""
        if c in (0,) or engine.t.structs[c][0] == 'init':
            return False
        for f in st.facts:
            for x in f:
                t = engine.t.structs[x]
                if t[0] == 'ext' and t[1] in ('numpy.arange', 'numpy.linspace') and c in t[2]:
                    return True
        return False

    def key(self, st):
        e = self.engine
        v = self.value(e, st)
        return (v.none, self.stale(e, st), self.m in st.filled, st.snap.get(self.m) == 'USER')

    # ---------------------------------------------------------------- events
    def on_write(self, engine, st, loc, old, new, node, fn):
        isnone = new.kind == 'const' and new.data is None
        if not isnone and loc != self.m:
            self.use(engine, st, new, node, fn, 'stored in %s' % loc[1])
        if loc != self.m:
            filling = not isnone and new.tok != old.tok and any(loc in g for g in engine.guards)
            same = [m for m in st.marks if m[0] == 'same' and m[1] == loc]
            if same and new.tok != old.tok and not filling:
                st.marks = st.marks - frozenset(same)
            if isnone and self.droppable(loc) and loc not in self.w.memos:
                st.heap[loc] = new.clone(tok=old.tok)          # data dropped, not a changed setting
                if loc in self.mask and self.value(engine, st).none is not True:
                    st.marks = st.marks | frozenset([('unmasked', loc)])
            elif filling:
                # filled in, not changed
                st.marks = st.marks | frozenset([('same', loc, old.tok)])
            return
        st.marks = frozenset(x for x in st.marks if x[0] != 'unmasked')
        if isnone:
            st.snap[loc] = {}
            return
        t = engine.t.structs[new.tok]
        if t[0] == 'arg':
            st.snap[loc] = 'USER'
            return
        if new.tok == old.tok and old.none is not True:
            return
        if t[0] == 'idx' and t[1] == old.tok and engine.t.structs[t[2]][0] == 'slice':
            sn = st.snap.get(loc)
            if sn == 'USER':
                return
            sn = {b: engine.snap_tok(st, loc, b) for b in self.b}
            sn['#cut'] = t[2]
            st.snap[loc] = sn
            return
        if old.none is not True and self.derived(engine, new.tok, old.tok):
            return
        st.heap[loc] = new.clone(none=False)
        st.snap[loc] = {b: engine.cur_tok(st, b) for b in self.b}
        st.filled = st.filled | frozenset([loc])

    def derived(self, engine, tok, old, depth=0):
        if tok == old:
            return True
        if depth > 3:
            return False
        for p in engine.t.structs[tok][1:]:
            for q in (p if isinstance(p, tuple) else (p,)):
                if isinstance(q, int) and not isinstance(q, bool) and q < len(engine.t.structs) and \
                        self.derived(engine, q, old, depth + 1):
                    return True
        return False

    def on_mutate(self, engine, st, loc, old, new, node, fn):
        if loc == self.m and loc not in st.filled and self.value(engine, st).none is not True:
            self.report('mutated', loc, EMPTY, node, fn,
                        'the remembered %s is modified in place' % loc[1])

    def on_read(self, engine, st, loc, v, node, fn):
        if loc == self.m and not self.peek and fn.name not in ('__init__',):
            if v.none is True and loc in st.filled and v.kind == 'const':
                self.report('discarded', loc, EMPTY, node, fn,
                            'the result %s computed by this request is discarded before it is used' % loc[1])
            bad = self.stale(engine, st)
            if bad and v.none is not True and v.kind in ('opq', 'seq', 'map'):
                return v.clone(deps=v.deps | frozenset([('STALE', fn.where(node), tuple(sorted(bad)))]))
        return v

    def use(self, engine, st, v, node, fn, how):
        for d in v.deps:
            if d[0] == 'STALE':
                self.bad.setdefault(('stale-use', '%s:%s:%s' % (self.method, self.m[1], ','.join(sorted(b[1] for b in d[2])))),
                                    (d[1], '%s is read after %s changed, and %s' % (self.m[1], self.names(d[2]), how)))

    def on_return(self, engine, func, pairs, node):
        if len(engine.stack) == 0:
            for st, v in pairs:
                self.use(engine, st, v, func.node, func, 'returned')
        return pairs

    def on_ext(self, engine, st, name, args, node, fn):
        if name.startswith(('matplotlib', 'numpy.save')):
            for v in args:
                self.use(engine, st, v, node, fn, 'shown or written')

    def names(self, bs):
        return ', '.join(sorted(b[1].lstrip('_') for b in bs))

    def report(self, rule, loc, bases, node, fn, text):
        k = '%s:%s:%s' % (self.method, loc[1], ','.join(sorted(b[1] for b in bases)))
        self.bad.setdefault((rule, k), (fn.where(node), text))

    # ---------------------------------------------------------------- one method
    def check(self, oid, func):
        w = self.w
        e = w.engine(self, self.key)
        self.engine = e
        self.method = func.qual.split(':')[-1]
        r = w.run(e, oid, func)
        self.exits(e, r, func)
        return len(r)

    def exits(self, e, r, func):
        for st, v in r:
            bad = self.stale(e, st)
            for l in self.mask:
                lv = st.heap.get(l)
                if ('unmasked', l) in st.marks and self.value(e, st).none is not True:
                    self.bad.setdefault(('unmasked', '%s:%s:%s' % (self.method, self.m[1], l[1])), (func.where(),
                        '%s uncovers %s (by dropping %s) without discarding it' % (self.method, self.m[1], l[1])))
                if lv is not None and lv.none is False:
                    bad = EMPTY                      # not looked at while that one is there
            if bad:
                k = '%s:%s:%s' % (self.method, self.m[1], ','.join(sorted(b[1] for b in bad)))
                self.bad.setdefault(('stale-exit', k), (func.where(),
                    'after %s, %s is still the one computed before %s changed'
                    % (self.method, self.m[1], self.names(bad))))


def methods_for(w, oid, m):
    """public operations that may change m or something m depends on."""
    out = []
    for f in w.public_methods(oid):
        wr = w.writes_of.get((oid, f.qual), set())
        if m in wr or wr & w.D.get(m, set()):
            out.append(f)
    return out


def run_all(w, oids, extra=None):
    """-> (list of violations, number of (method, memo) obligations, limits)"""
    jobs = []
    for oid in oids:
        for m in sorted(w.D):
            if m[0] == oid and m in w.memos:
                for f in methods_for(w, oid, m):
                    jobs.append((oid, m, f))
    from multiprocessing import get_context
    global _JOBS, _W
    _JOBS, _W = jobs, w
    ctx = get_context('fork')
    with ctx.Pool(8) as pool:
        res = pool.map(_job, range(len(jobs)), chunksize=1)
    bad, limits, obligations = [], [], []
    for (oid, m, f), (b, lim) in zip(jobs, res):
        obligations.append((m, f.qual))
        if lim:
            limits.append((m, f.qual))
        for (rule, k), (where, text) in sorted(b.items()):
            bad.append((rule, k, where, text))
    return bad, obligations, limits


def _job(i):
    oid, m, f = _JOBS[i]
    h = Status(_W, m)
    try:
        h.check(oid, f)
    except Limit:
        return {}, True
    return h.bad, False
