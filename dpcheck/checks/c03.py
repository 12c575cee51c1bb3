"""C03: an answer remembered for one argument value is never returned for another.

For every remembered result m filled by a public request f whose value depends on a parameter p of f: there is an
attribute K such that whenever f returns with m present, K equals the p of this call.  (Filled in this call: K was set
to p.  Found: the test K == p has just succeeded.)  K is written nowhere else while m is kept."""
import ast

from ..engine import Limit, contains
from ..model import Program
from ..stale import Hooks, World


class Keyed(Hooks):
    def __init__(self, w, m, func, param, cands):
        Hooks.__init__(self, w)
        self.m, self.func, self.param, self.cands = m, func, param, cands
        self.entry = []
        self.failed = {}
        self.returns = 0
        self.fills = 0

    def ptoks(self):
        return self.entry

    def on_call(self, engine, func, st, node):
        if func.node is self.func.node:
            v = engine.argstack[-1].get(self.param)
            self.entry.append(v.tok if v is not None else None)

    def present(self, engine, st):
        v = st.heap.get(self.m)
        if v is None:
            v = engine.init_value(self.m)
        return v.none is not True

    def holds(self, engine, st, k):
        tok = self.entry[-1]
        c = engine.cur_tok(st, k)
        if tok is None:
            return False
        if contains(engine.t, c, tok):
            return True
        for f in st.facts:
            if c in f and any(contains(engine.t, x, tok) for x in f if x != c):
                return True
        return False

    def key(self, st):
        if not self.entry:
            return ()
        e = self.engine
        return (self.present(e, st), tuple(self.holds(e, st, k) for k in self.cands))

    def on_return(self, engine, func, pairs, node):
        if func.node is self.func.node:
            for st, v in pairs:
                if not self.present(engine, st):
                    continue
                self.returns += 1
                for k in self.cands:
                    if not self.holds(engine, st, k):
                        self.failed.setdefault(k, func.where())
            self.entry.pop()
        return pairs

    def on_write(self, engine, st, loc, old, new, node, fn):
        if loc in self.cands and not self.entry and not (new.kind == 'const' and new.data is None):
            self.failed.setdefault(loc, fn.where(node))
        if loc == self.m and self.entry and not (new.kind == 'const' and new.data is None):
            self.fills += 1


def narrowed(func, param, memo):
    """the parameter decides whether the remembered result is used at all: left undecided."""
    for n in ast.walk(func.node):
        if isinstance(n, ast.If):
            names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
            attrs = {x.attr for x in ast.walk(n.test) if isinstance(x, ast.Attribute)}
            if param in names and memo[1] not in attrs:
                here = any(isinstance(x, ast.Attribute) and x.attr == memo[1] for b in n.body + n.orelse for x in ast.walk(b))
                ends = bool(n.body) and isinstance(n.body[-1], (ast.Return, ast.Raise))
                if ends and not any(isinstance(x, ast.Attribute) and x.attr == memo[1] for b in n.body for x in ast.walk(b)):
                    return True
                wraps = here and any(isinstance(x, (ast.Return,)) for b in n.body + n.orelse for x in ast.walk(b))
                if wraps:
                    return True
    return False


def run(rep):
    w = World(Program())
    rep.rule('keyed', 'a remembered result that depends on a request argument is kept together with that argument and only '
                      'reused for an equal one')
    todo = []
    byqual = {}
    for oid in w.classes:
        for f in w.public_methods(oid):
            byqual[f.qual] = (oid, f)
    accessors = 0
    for m in sorted(w.D):
        if m[0] not in ('SELF', 'DYN', 'STR') or m not in w.memos:
            continue
        accessors += 1
        args = set()
        for a, p in w.argdeps.get(m, ()):
            q = a.split(':', 1)[1]
            if q in w.fillsites.get(m, ()) or any(x.split('.')[-1].startswith('_') for x in w.fillsites.get(m, ())):
                args.add((q, p))
        done = False
        for q, p in sorted(args):
            if q not in byqual:
                continue
            oid, f = byqual[q]
            if oid != m[0] or not returns_value(f) or f.name.startswith(('set_', 'crop')) or p not in f.params():
                continue
            todo.append((m, oid, f, p))
            done = True
        if not done:
            rep.ok('keyed', '%s.%s depends on no argument of the request that computes it' % m)
    rep.need(accessors >= 3, 'the remembered results are not found')
    for m, oid, f, p in todo:
        cands = sorted(k for k in w.keywrites if k[0] == oid and k not in w.memos and k not in w.types
                       and (f.qual in w.keywrites[k] or any(x.split('.')[-1].startswith('_') for x in w.keywrites[k])))
        users = [g for g in w.public_methods(oid)
                 if m in w.writes_of.get((oid, g.qual), ()) or w.writes_of.get((oid, g.qual), set()) & set(cands)]
        failed, returns, limit = {}, 0, False
        for g in users:
            h = Keyed(w, m, f, p, tuple(cands))
            e = w.engine(h, h.key)
            h.engine = e
            try:
                w.run(e, oid, g)
            except Limit:
                limit = True
                continue
            returns += h.returns
            for k, wh in h.failed.items():
                failed.setdefault(k, wh)
        good = [k for k in cands if k not in failed]
        key = '%s:%s:%s' % (f.qual.split(':')[-1], m[1], p)
        if limit:
            rep.skip('keyed', key, 'analysis budget exhausted')
        elif good and returns:
            rep.ok('keyed', '%s is kept with %s = argument %s of %s (%d return states)' % (
                m[1], good[0][1], p, f.qual, returns))
        elif narrowed(f, p, m):
            rep.skip('keyed', key, 'the argument selects whether the remembered result is used')
        else:
            rep.bad('keyed', key, f.where(), '%s returns the remembered %s whatever its argument %s, on which it depends%s'
                    % (f.qual, m[1], p, '' if not cands else ' (%s is not compared and set on every path)' %
                       ', '.join(k[1] for k in cands)))
    rep.info['results_with_arguments'] = ['%s(%s) -> %s' % (f.qual, p, m[1]) for m, _, f, p in todo]
    rep.info['functions_analysed'] = sorted(w.inlined)


def returns_value(f):
    return any(isinstance(n, ast.Return) and n.value is not None and not
               (isinstance(n.value, ast.Constant) and n.value.value is None) for n in ast.walk(f.node))
