"""C04: a preference changed by the interactive menu or the command-line driver reaches the next result.

The clients (menu, driver) are analysed as programs over one calculation object.  A setting they assign themselves on
the calculation's Parameters, and on which a remembered result depends, leaves that result pending; an operation that
always discards it settles it; computing, showing or writing it while pending is the violation."""
import ast

from ..engine import EMPTY, Limit, State
from ..model import Func, Program
from ..stale import Hooks, World


class Client(Hooks):
    def __init__(self, w, clears, everything):
        Hooks.__init__(self, w)
        self.clears = clears
        self.everything = everything
        self.bad = {}
        self.calls = set()
        self.stores = {}
        self.memos = [m for m in w.D if m[0] in ('SELF', 'DYN', 'STR') and m in w.memos]

    def key(self, st):
        return ()

    def client_call(self, engine, func, self_v, args, kws, st, node, fn):
        oid = self_v.data
        if oid == 'PAR' or func.cls is None or oid not in self.w.classes:
            return None
        w = self.w
        q = (oid, func.qual)
        self.calls.add(q)
        st = st.copy()
        pend = {p for p in st.marks if p[0] == 'pend'}
        done = {p for p in st.marks if p[0] == 'done'}
        if oid == 'SELF':
            gone = self.clears(func)
            pend = {p for p in pend if p[1] not in gone}
            done = {p for p in done if p[1] not in gone}
            fills = w.fills_of.get(q, ())
            for p in pend:
                if p[1] in fills:
                    k = '%s:%s:%s' % (p[3], p[2][1].lstrip('_'), p[1][1])
                    self.bad.setdefault(k, (p[4], '%s is changed at %s without discarding %s, which %s (called at %s) then '
                                            'reuses' % (p[2][1].lstrip('_'), p[4], p[1][1], func.name, fn.where(node))))
            done |= {('done', m) for m in fills}
        st.marks = frozenset(m for m in st.marks if m[0] not in ('pend', 'done')) | pend | done
        v = engine.opq(engine.t.mk('client', func.qual, str(getattr(node, 'lineno', 0)), str(getattr(node, 'col_offset', 0))))
        if func.name in w.classes[oid].getters or not args:
            t = self.type_of(oid, func)
            if t is not None:
                v = engine.obj(t)
        return [(st, v)]

    def type_of(self, oid, func):
        """a getter that hands out one of our objects."""
        body = [n for n in func.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute):
            return self.w.types.get((oid, body[0].value.attr))
        return None

    def on_write(self, engine, st, loc, old, new, node, fn):
        w = self.w
        if loc in self.memos and new.kind == 'const' and new.data is None:
            st.marks = frozenset(m for m in st.marks if not (m[0] in ('pend', 'done') and m[1] == loc))
            return
        if loc[0] != 'PAR' or new.tok == old.tok:
            return
        client = next((f for f in reversed(engine.stack) if f.cls is None), None)
        where = fn.where(node)
        for f, site in zip(reversed(engine.stack), reversed(engine.callnodes)):
            if f.cls is None:
                break
            where = site
        cname = client.name if client else '?'
        hit = False
        for m in self.memos:
            if loc in w.D.get(m, ()):
                hit = True
                if self.everything or ('done', m) in st.marks:
                    st.marks = st.marks | frozenset([('pend', m, loc, cname, where)])
        self.stores[(cname, loc, where)] = hit


def clears_table(w):
    cache = {}

    def clears(func):
        if func.qual not in cache:
            h = Hooks(w)
            e = w.engine(h, lambda st: frozenset(l for l in w.memos if e.is_none(st, l)))
            cand = [m for m in w.writes_of.get(('SELF', func.qual), ()) if m in w.memos]
            out = set()
            if cand and not any(m in w.fills_of.get(('SELF', func.qual), ()) for m in cand):
                try:
                    r = w.run(e, 'SELF', func)
                    out = {m for m in cand if r and all(e.is_none(s, m) for s, _ in r)}
                except Limit:
                    out = set(cand)
            elif cand:
                out = set(cand) if func.name.startswith('set_') else set()
            cache[func.qual] = out
        return cache[func.qual]
    return clears


def run(rep):
    prog = Program(norm='light')
    w = World(prog)
    rep.rule('preference', 'a setting assigned directly by the menu or driver is followed by discarding the results that '
                           'depend on it before any of them is used')
    clears = clears_table(w)
    clients = []
    for m in prog.modules.values():
        if not m.name.startswith('dynaphopy.interface'):
            continue
        for name, f in m.funcs.items():
            if f.params()[:1] == ['calculation'] or 'calculation' in f.params():
                clients.append((f, True))
    drv = prog.scripts.get('dynaphopy')
    rep.need(drv is not None, 'the dynaphopy driver script is not found')
    node = ast.FunctionDef(name='main', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=drv.tree.body, decorator_list=[], lineno=1, col_offset=0)
    clients.append((Func(drv, node), False))
    calls, stores = set(), {}
    for f, everything in clients:
        h = Client(w, clears, everything)
        e = w.engine(h, h.key)
        e.singletons = {w.classes['PAR']: 'PAR', w.classes['SELF']: 'SELF'}
        st = State()
        st.frames[0] = {'<parent>': None}
        args = []
        for p in f.params():
            if p == 'calculation':
                args.append(e.obj('SELF'))
            elif p == 'trajectory':
                args.append(e.obj('DYN'))
            else:
                args.append(e.opq(e.t.mk('arg', f.qual, p)))
        e.inline_all = False
        try:
            e.run_entry(f, args, st)
        except Limit:
            rep.skip('preference', f.qual, 'analysis budget exhausted')
            continue
        calls |= h.calls
        stores.update({k: (v, f) for k, v in h.stores.items()})
        bad = {k.split(':')[1] for k in h.bad}
        for k, (where, text) in sorted(h.bad.items()):
            rep.bad('preference', k, where, text)
        for (cname, loc, where), hit in sorted(h.stores.items()):
            if loc[1].lstrip('_') not in bad:
                rep.ok('preference', '%s sets %s at %s: %s' % (
                    cname, loc[1].lstrip('_'), where,
                    'nothing that depends on it can be remembered then' if hit else 'no remembered result depends on it'))
        for q in sorted(h.calls):
            if q[0] == 'SELF' and (q[1].split('.')[-1].startswith(('set_', 'select_'))):
                rep.ok('preference', '%s changes a preference through %s (see C01)' % (f.name, q[1]))
    rep.need(any(q[0] == 'SELF' for q in calls), 'no use of the calculation is found in the menu or driver')
    rep.info['operations_used_by_clients'] = sorted(q[1] for q in calls)
    rep.assumptions.append('the operations of the calculation themselves keep results in step (C01)')
