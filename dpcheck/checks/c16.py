"""C16: per-mode and per-wave-vector results stay aligned."""
import ast

from ..model import Program
from ..names import dotted
from ..reach import Reach

LIMIT = 3000
# keys under which results per mode or per wave vector are stored
PERMODE = {'positions', 'widths', 'frequencies', 'linewidths', 'eigenvectors', 'group_velocity', 'q_points', 'frequency_shifts'}


def live_nodes(root, stop=()):
    """nodes that may be executed, without nested functions"""
    out = []

    def rec(n):
        out.append(n)
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.Constant) and not n.test.value:
            for c in n.orelse:
                rec(c)
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            rec(c)
    rec(root)
    return out


def append_of(s):
    """the list name and value of 'name.append(value)' or 'name += [value]'"""
    if isinstance(s, ast.Expr):
        s = s.value
    if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'append' and isinstance(s.func.value, ast.Name) and len(s.args) == 1:
        return s.func.value.id, s.args[0]
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.List) and len(s.value.elts) == 1:
        return s.target.id, s.value.elts[0]
    return None


def stops(s):
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        return (dotted(s.value.func) or '') in ('exit', 'quit', 'sys.exit', 'os._exit')
    return False


class Paths:
    """numbers of appends to each list of a group on every way through one turn of a loop"""

    def __init__(self, group):
        self.group = group
        self.ends = []          # (kind, counts, description)
        self.overflow = False

    def relevant(self, s):
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
                return True
            a = append_of(n) if isinstance(n, (ast.Expr, ast.AugAssign)) else None
            if a and a[0] in self.group:
                return True
            if isinstance(n, ast.stmt) and stops(n):
                return True
        return False

    def key(self, test, asg):
        return ast.unparse(test)

    def block(self, body, states):
        """states: list of (counts, assumptions, description); returns the states that reach the end"""
        for s in body:
            if not states:
                return states
            if len(states) > LIMIT:
                self.overflow = True
                return []
            states = self.stmt(s, states)
        return states

    def branch(self, test, states):
        """(states where the test holds, where it does not)"""
        if isinstance(test, ast.Constant):
            return (states, []) if test.value else ([], states)
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg = not neg
            t = t.operand
        k = ast.unparse(t)
        yes, no = [], []
        for c, a, d in states:
            v = a.get(k)
            if v is None or v is True:
                (no if neg else yes).append((c, dict(a, **{k: True}), d))
            if v is None or v is False:
                (yes if neg else no).append((c, dict(a, **{k: False}), d))
        return yes, no

    def forget(self, s, states):
        """assumptions about names the statement may change"""
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        mut = {n.func.value.id for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)}
        names |= mut
        if not names:
            return states
        out = []
        for c, a, d in states:
            b = {k: v for k, v in a.items() if not (names & {x.id for x in ast.walk(ast.parse(k)) if isinstance(x, ast.Name)})}
            out.append((c, b, d))
        return self.merge(out)

    def merge(self, states):
        seen = {}
        for c, a, d in states:
            k = (tuple(sorted(c.items())), tuple(sorted(a.items())))
            seen.setdefault(k, (c, a, d))
        return list(seen.values())

    def stmt(self, s, states):
        if stops(s):
            return []
        if isinstance(s, ast.Break):
            self.ends += [('break', c, d) for c, a, d in states]
            return []
        if isinstance(s, ast.Continue):
            self.ends += [('continue', c, d) for c, a, d in states]
            return []
        a = append_of(s)
        if a and a[0] in self.group:
            return [(dict(c, **{a[0]: c.get(a[0], 0) + 1}), x, d) for c, x, d in states]
        if isinstance(s, ast.If):
            if not self.relevant(s):
                return self.forget(s, states)
            yes, no = self.branch(s.test, states)
            yes = [(c, a, d + [(s.lineno, True)]) for c, a, d in yes]
            no = [(c, a, d + [(s.lineno, False)]) for c, a, d in no]
            return self.merge(self.block(s.body, yes) + self.block(s.orelse, no))
        if isinstance(s, (ast.For, ast.While)):
            if any(append_of(n) and append_of(n)[0] in self.group for n in ast.walk(s) if isinstance(n, (ast.Expr, ast.AugAssign))):
                self.overflow = True
                return []
            return self.forget(s, states)
        if isinstance(s, ast.With):
            return self.block(s.body, self.forget(ast.Expr(value=ast.Constant(value=None)), states))
        if isinstance(s, ast.Try):
            if not self.relevant(s):
                return self.forget(s, states)
            mids = []
            cur = states
            for x in s.body:
                ap = append_of(x)
                safe = isinstance(x, (ast.Pass, ast.Continue, ast.Break)) or (ap is not None and isinstance(ap[1], (ast.Name, ast.Constant)))
                if not safe and not isinstance(x, ast.Raise):
                    mids += [(c, a, d + [(x.lineno, 'raises')]) for c, a, d in cur]
                if isinstance(x, ast.Raise):
                    mids += [(c, a, d + [(x.lineno, 'raises')]) for c, a, d in cur]
                cur = self.stmt(x, cur)
                if not cur:
                    break
            out = self.block(s.orelse, cur)
            for h in s.handlers:
                out = out + self.block(h.body, self.merge(mids))
            if s.finalbody:
                out = self.block(s.finalbody, out)
            return self.merge(out)
        return self.forget(s, states)


def groups(f):
    """[(loop, names, why, one)]: lists filled in the same loop and used together afterwards"""
    root = f.node
    reach = Reach(root)
    nodes = live_nodes(root)
    inits = {}
    for n in nodes:
        if isinstance(n, ast.Assign) and (isinstance(n.value, ast.List) and not n.value.elts or
                                          isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'list' and not n.value.args):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    inits.setdefault(t.id, []).append(n)
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple):
            for t, v in zip(n.targets[0].elts, n.value.elts):
                if isinstance(t, ast.Name) and isinstance(v, ast.List) and not v.elts:
                    inits.setdefault(t.id, []).append(n)
    out = []

    def carry(e, depth=0):
        """the appended list an expression carries (through np.array, transposition, names)"""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            if e.id in inits:
                ds = reach.defs(e)
                if any(d.kind == 'assign' and d.stmt in inits[e.id] for d in ds):
                    return e.id
            for d in reach.defs(e):
                if d.kind == 'assign' and d.path == ():
                    c = carry(d.value, depth + 1)
                    if c:
                        return c
            return None
        if isinstance(e, ast.Call) and len(e.args) >= 1 and (dotted(e.func) or '').split('.')[-1] in ('array', 'asarray', 'list', 'tuple', 'vstack', 'stack', 'ascontiguousarray'):
            return carry(e.args[0], depth + 1)
        if isinstance(e, ast.Attribute) and e.attr == 'T':
            return carry(e.value, depth + 1)
        return None
    loops = [n for n in nodes if isinstance(n, (ast.For, ast.While))]
    for lp in loops:
        direct = set()

        def rec(body):
            for s in body:
                a = append_of(s)
                if a:
                    direct.add(a[0])
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                    continue
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, fld, None)
                    if isinstance(b, list):
                        rec(b)
                for h in getattr(s, 'handlers', []):
                    rec(h.body)
        rec(lp.body)
        inside = {id(x) for x in ast.walk(lp)}
        direct = {n for n in direct if n in inits and all(id(i) not in inside for i in inits[n])}
        if len(direct) < 2:
            continue
        used = []
        for n in nodes:
            if id(n) in inside:
                continue
            vals = None
            if isinstance(n, ast.Dict):
                vals = n.values
            elif isinstance(n, ast.Return) and isinstance(n.value, (ast.Tuple, ast.List)):
                vals = n.value.elts
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict':
                vals = [k.value for k in n.keywords]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'zip':
                vals = n.args
            elif isinstance(n, ast.List) and len(n.elts) >= 2:
                vals = n.elts
            if vals:
                g = {carry(v) for v in vals} & direct
                keys = {k.value for k in n.keys if isinstance(k, ast.Constant)} if isinstance(n, ast.Dict) else {k.arg for k in n.keywords} if isinstance(n, ast.Call) else set()
                if len(g) >= 2:
                    used.append((g, 'stored as results' if keys & PERMODE else 'stored together'))
        # d['a'] = list1; d['b'] = list2
        subs = {}
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and \
                    isinstance(n.targets[0].slice.value, str) and id(n) not in inside:
                c = carry(n.value)
                if c in direct:
                    subs.setdefault(ast.unparse(n.targets[0].value), set()).add((c, n.targets[0].slice.value))
        used += [({c for c, k in g}, 'stored as results' if {k for c, k in g} & PERMODE else 'stored together') for g in subs.values() if len(g) >= 2]
        # common index
        idx = {}
        for n in nodes:
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    c = carry(b)
                    if c in direct:
                        idx.setdefault(n.slice.id, set()).add(c)
                        # the index was found by searching one of the lists
                        for d in reach.defs(n.slice):
                            if d.kind == 'assign' and d.path == ():
                                for x in ast.walk(d.value):
                                    if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('argmin', 'argmax', 'nanargmin', 'nanargmax', 'index') and x.args:
                                        y = x.args[0]
                                        while isinstance(y, ast.Subscript):
                                            y = y.value
                                        c2 = carry(y)
                                        if c2 in direct:
                                            idx[n.slice.id].add(c2)
        used += [(g, 'read with the same index %s' % k) for k, g in sorted(idx.items()) if len(g) >= 2]
        # union of the intersecting groups
        merged = []
        for g, why in used:
            g = set(g)
            for m in [m for m in merged if m[0] & g]:
                g |= m[0]
                why = m[1] if why != 'stored as results' else why
                merged.remove(m)
            merged.append((g, why))
        for g, why in merged:
            out.append((lp, g, why, why == 'stored as results' and isinstance(lp, ast.For)))
    return out, reach


def run(rep):
    rep.rule('balance', 'on every way through one turn of the loop, lists that are used together grow by the same number of entries')
    rep.rule('one', 'lists stored together as results grow by exactly one entry per mode or wave vector, whatever happens in the turn')
    rep.rule('source', 'an entry copied from an earlier one is copied from the same list, at the same index in all of them, and each key holds the quantity of its name')
    rep.rule('at', 'in a loop over wave vectors, what depends on the wave vector is requested only after it is set to that of the turn')
    rep.rule('index', 'quantities of one record are taken at the same index')
    rep.rule('unpack', 'tuples of results are unpacked in the order in which they are returned')
    rep.rule('group', 'what is averaged over the modes that go with one mode is taken at the modes of the group that contains it')
    rep.rule('partition', 'every mode put into a group is marked as taken')
    rep.rule('arrange', 'eigenvectors are rearranged from columns to (mode, atom, direction) and back')
    prog = Program()
    ngroups = 0
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda):
            continue
        gs, reach = groups(f)
        for lp, g, why, one in gs:
            ngroups += 1
            balance(rep, f, lp, g, why, one)
            copies(rep, f, lp, g)
        filled(rep, f, reach)
        roles(rep, f, reach)
        wavevectors(rep, prog, f, reach)
        records(rep, f)
        members(rep, f)
        partition(rep, f)
    unpack(rep, prog)
    arrange(rep, prog)
    rep.need(ngroups > 0, 'no lists of results filled together were found')


def balance(rep, f, lp, g, why, one):
    p = Paths(g)
    end = p.block(lp.body, [({}, {}, [])])
    p.ends += [('end', c, d) for c, a, d in end]
    name = '%s: %s (%s)' % (f.qual, ', '.join(sorted(g)), why)
    key = '%s: %s' % (f.qual, ', '.join(sorted(g)))
    if p.overflow or not p.ends:
        rep.skip('balance', name, 'the turns of the loop are not enumerable')
        return
    for kind, c, d in p.ends:
        n = {x: c.get(x, 0) for x in g}
        if len(set(n.values())) > 1:
            less = sorted(x for x in g if n[x] == min(n.values()))
            rep.bad('balance', key, f.where(lp), 'in a turn of the loop (%s) %s get%s fewer entries than the others (%s): what follows is out of step' % (
                way(d, kind), ', '.join(less), 's' if len(less) == 1 else '', ', '.join('%s %d' % kv for kv in sorted(n.items()))))
            return
    rep.ok('balance', name + ', %d ways through a turn' % len(p.ends))
    if one:
        counts = {next(iter({c.get(x, 0) for x in g})) for k, c, d in p.ends}
        if counts == {1} and not any(k == 'break' for k, c, d in p.ends):
            rep.ok('one', name)
        elif 1 in counts and isinstance(lp, ast.For) and overall(f, lp):
            for k, c, d in p.ends:
                v = {c.get(x, 0) for x in g}
                if v != {1} or k == 'break':
                    rep.bad('one', key, f.where(lp), 'a turn of the loop (%s) %s: the results no longer have one entry per turn' % (
                        way(d, k), 'ends the loop' if k == 'break' else 'adds %d entries' % next(iter(v))))
                    return


def overall(f, lp):
    """a loop over the columns of an array or over all of a list (not over a filtered range)"""
    it = lp.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id == 'enumerate':
            return True
        if it.func.id == 'range' and len(it.args) == 1:
            return any(isinstance(n, ast.Attribute) and n.attr == 'shape' or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' for n in ast.walk(it))
    return isinstance(it, (ast.Name, ast.Attribute))


def way(d, kind):
    s = ', '.join('line %d %s' % (l, 'raises' if v == 'raises' else 'taken' if v else 'not taken') for l, v in d[-4:]) or 'straight through'
    return s + (', then %s' % kind if kind != 'end' else '')


def copies(rep, f, lp, g):
    """X.append(X[i]): the same list and the same index in all"""
    blocks = {}
    for n in live_nodes(lp):
        a = append_of(n) if isinstance(n, (ast.Expr, ast.AugAssign)) else None
        if a and a[0] in g and isinstance(a[1], ast.Subscript) and isinstance(a[1].value, ast.Name) and a[1].value.id in g:
            if a[1].value.id == a[0]:
                rep.ok('source', '%s: %s copies its own entry' % (f.qual, a[0]))
            else:
                rep.bad('source', '%s: %s' % (f.qual, a[0]), f.where(n), 'an entry of %s is copied from %s' % (a[0], a[1].value.id))
            blocks.setdefault(id(getattr(n, '_parent', None)), []).append((a[0], ast.unparse(a[1].slice), n))
    for b in blocks.values():
        idx = {}
        for x, i, n in b:
            idx.setdefault(i, []).append((x, n))
        if len(idx) > 1:
            least = min(idx.values(), key=len)
            rep.bad('source', '%s: index of %s' % (f.qual, least[0][0]), f.where(least[0][1]), 'entries of %s are copied from different indices (%s)' % (', '.join(sorted(x for x, i, n in b)), ', '.join(sorted(idx))))


# -- what each key holds ---------------------------------------------------------
SRC = {'positions': 'peak_position', 'widths': 'width', 'error': 'global_error', 'dt_Q2': 'area'}
NEXT = {'frequencies': 'positions', 'linewidths': 'widths'}


def roles(rep, f, reach):
    """the list stored under a key holds the quantity of this name"""
    nodes = live_nodes(f.node)
    dicts = [n for n in nodes if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) for k in n.keys if k is not None)]
    for d in dicts:
        keys = {k.value: v for k, v in zip(d.keys, d.values) if k is not None}
        for table in (SRC, NEXT):
            if not set(keys) >= set(list(table)[:2]):
                continue
            for k, want in table.items():
                if k not in keys:
                    continue
                l = listname(keys[k], reach)
                if l is None:
                    continue
                got = set()
                for n in nodes:
                    a = append_of(n) if isinstance(n, (ast.Expr, ast.AugAssign)) else None
                    if a and a[0] == l and not (isinstance(a[1], ast.Subscript) and isinstance(a[1].value, ast.Name) and a[1].value.id == l):
                        got |= fields(a[1], reach)
                others = set(table.values())
                if want in got:
                    rep.ok('source', '%s: %r holds %s' % (f.qual, k, want))
                elif got & others:
                    rep.bad('source', '%s: key %s' % (f.qual, k), f.where(keys[k]), 'the results stored as %r hold %s, not %s' % (k, ', '.join(sorted(got & others)), want))


def may_fill(f, call):
    if (dotted(call.func) or '').split('.')[0] in ('np', 'numpy', 'print', 'len', 'enumerate', 'zip'):
        return False
    r = f.mod.resolve(call.func.id) if isinstance(call.func, ast.Name) else None
    return not (r and r[0] == 'func' and not f.mod.prog.mutates(r[1].qual))


def filled(rep, f, reach):
    """a list of results that starts empty is filled somewhere"""
    nodes = live_nodes(f.node)
    for n in nodes:
        vals = []
        if isinstance(n, ast.Dict):
            keys = {k.value for k in n.keys if isinstance(k, ast.Constant)}
            if len(keys & PERMODE) >= 2:
                vals = [(k.value, v) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)]
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Name):
            vals = [(n.value.id, n.value)]
        for k, v in vals:
            l = listname(v, reach)
            if l is None:
                continue
            inits = [d for x in nodes if isinstance(x, ast.Name) and x.id == l for d in reach.defs(x)]
            if not inits or not all(d.kind == 'assign' and d.path == () and isinstance(d.value, ast.List) and not d.value.elts for d in inits):
                continue
            touched = any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == l or
                                                       any(isinstance(a, ast.Name) and a.id == l for a in list(x.args) + [w.value for w in x.keywords]) and
                                                       may_fill(f, x)) for x in nodes) or any(
                isinstance(x, (ast.AugAssign, ast.Subscript)) and isinstance(getattr(x, 'target', getattr(x, 'value', None)), ast.Name) and
                (getattr(x, 'target', None) or x.value).id == l and isinstance(getattr(x, 'ctx', ast.Store()), ast.Store) for x in nodes)
            if not touched:
                rep.bad('balance', '%s: %s never filled' % (f.qual, l), f.where(n), '%s is read as results, but nothing is ever put into it' % l)


def listname(e, reach, depth=0):
    if depth > 5:
        return None
    if isinstance(e, ast.Name):
        for d in reach.defs(e):
            if d.kind == 'assign' and d.path == () and isinstance(d.value, ast.Call):
                r = listname(d.value, reach, depth + 1)
                if r:
                    return r
        return e.id
    if isinstance(e, ast.Call) and e.args:
        return listname(e.args[0], reach, depth + 1)
    return None


def fields(e, reach, depth=0):
    """string keys of the dictionaries an expression reads, through names"""
    out = set()
    if depth > 8:
        return out
    for n in ast.walk(e):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            out.add(n.slice.value)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for d in reach.defs(n):
                if d.kind == 'assign' and d.path == () and d.value is not None and not isinstance(d.value, (ast.List, ast.ListComp)):
                    out |= fields(d.value, reach, depth + 1)
                elif d.kind == 'aug':
                    for p in d.prev or ():
                        if p.kind == 'assign' and p.path == ():
                            out |= fields(p.value, reach, depth + 1)
    return out


# -- the wave vector of the turn -------------------------------------------------
def dependent(cls):
    """methods of the class whose answer depends on the current wave vector"""
    if not hasattr(cls, '_qdep'):
        base = {'reduced_q_vector'}
        dep = set()
        meths = dict(cls.methods)
        meths.update(cls.getters)
        ch = True
        while ch:
            ch = False
            for n, m in meths.items():
                if n in dep or n.startswith('set_') or n.startswith('__'):
                    continue
                saves = False
                reads = False
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                        if x.attr in base:
                            reads = True
                        if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in dep:
                            reads = True
                if reads:
                    dep.add(n)
                    ch = True
        # a method that moves the wave vector itself answers for those it sets
        for n, m in meths.items():
            if any(isinstance(x, ast.Attribute) and x.attr == 'set_reduced_q_vector' for x in ast.walk(m.node)) and n in dep and \
                    any(isinstance(l, ast.For) and any(isinstance(x, ast.Attribute) and x.attr == 'set_reduced_q_vector' for x in ast.walk(l)) for l in ast.walk(m.node)):
                pass
        cls._qdep = dep
    return cls._qdep


def wavevectors(rep, prog, f, reach):
    if f.cls is None or f.parent is not None:
        return
    dep = dependent(f.cls)
    for lp in live_nodes(f.node):
        if not isinstance(lp, ast.For):
            continue
        names = {n.id for n in ast.walk(lp.target) if isinstance(n, ast.Name)}
        sets = [n for n in live_nodes(lp) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'set_reduced_q_vector' and n.args]
        mine = [n for n in sets if isinstance(n.args[0], ast.Name) and n.args[0].id in names]
        if not sets:
            continue
        if not mine:
            continue
        q = mine[0].args[0].id
        bad = []
        good = []

        def calls(s):
            return [n for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self']

        def rec(body, st):
            for s in body:
                if isinstance(s, ast.If):
                    look(s.test, st)
                    if isinstance(s.test, ast.Constant):
                        st = rec(s.body if s.test.value else s.orelse, st)
                        if st is None:
                            return None
                        continue
                    a, b = rec(s.body, st), rec(s.orelse, st)
                    if a is None and b is None:
                        return None
                    st = b if a is None else a if b is None else a and b
                    continue
                if isinstance(s, (ast.For, ast.While)):
                    rec(s.body, st)
                    continue
                if isinstance(s, ast.Try):
                    a = rec(s.body, st)
                    for h in s.handlers:
                        rec(h.body, st)
                    st = a if a is not None else st
                    continue
                if isinstance(s, ast.With):
                    st = rec(s.body, st)
                    if st is None:
                        return None
                    continue
                st = look(s, st)
                if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    return None
            return st

        def look(s, st):
            for n in sorted(calls(s), key=lambda n: (n.end_lineno, n.end_col_offset)):
                if n.func.attr == 'set_reduced_q_vector' and n.args:
                    st = isinstance(n.args[0], ast.Name) and n.args[0].id == q
                elif n.func.attr in dep and not any(isinstance(a, ast.Name) and a.id == q for a in n.args):
                    (good if st else bad).append(n)
            return st
        rec(lp.body, False)
        for n in bad:
            rep.bad('at', '%s: %s' % (f.qual, n.func.attr), f.where(n), '%s is requested before the wave vector of this turn is set: it belongs to the wave vector of the previous turn' % n.func.attr)
        for n in good:
            rep.ok('at', '%s: %s after the wave vector is set' % (f.qual, n.func.attr))
        # explicit wave vector arguments
        saved = set()
        for n in live_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'get_reduced_q_vector':
                saved |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in live_nodes(lp):
            if isinstance(n, ast.Call) and n.func is not None and not (isinstance(n.func, ast.Attribute) and n.func.attr == 'set_reduced_q_vector'):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in saved:
                        rep.bad('at', '%s: argument %s' % (f.qual, a.id), f.where(n), 'the wave vector saved before the loop is passed where the one of the turn is meant')


# -- records ---------------------------------------------------------------------
def records(rep, f):
    for lp in live_nodes(f.node):
        if not (isinstance(lp, ast.For) and isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, ast.Name) and lp.iter.func.id == 'enumerate' and
                isinstance(lp.target, ast.Tuple) and len(lp.target.elts) == 2 and isinstance(lp.target.elts[0], ast.Name)):
            continue
        if len(lp.iter.args) != 1:
            continue
        i = lp.target.elts[0].id
        entries = []
        for n in live_nodes(lp):
            if isinstance(n, ast.Dict):
                entries += [(k.value, v) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and isinstance(k.value, str)]
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and \
                    isinstance(n.targets[0].slice.value, str):
                entries.append((n.targets[0].slice.value, n.value))
        plain, shifted = [], []
        for k, v in entries:
            for s in ast.walk(v):
                if isinstance(s, ast.Subscript) and any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(s.slice)):
                    if isinstance(s.slice, ast.Name) or isinstance(s.slice, ast.Tuple):
                        plain.append((k, s))
                    elif isinstance(s.slice, ast.BinOp) and isinstance(s.slice.op, (ast.Add, ast.Sub)) and any(
                            isinstance(x, ast.Constant) and x.value for x in (s.slice.left, s.slice.right)):
                        shifted.append((k, s))
        if len(plain) >= 2:
            for k, s in plain:
                rep.ok('index', '%s: %r at the index of the record' % (f.qual, k))
            for k, s in shifted:
                rep.bad('index', '%s: %s' % (f.qual, k), f.where(s), '%r of a record is taken at index %s, the others at %s' % (k, ast.unparse(s.slice), i))
        # key read under another name of the same source
        srckeys = {}
        for k, v in entries:
            for s in ast.walk(v):
                if isinstance(s, ast.Subscript) and isinstance(s.slice, ast.Constant) and isinstance(s.slice.value, str):
                    srckeys.setdefault(ast.unparse(s.value), []).append((k, s.slice.value, s))
        for src, l in srckeys.items():
            names = {k for k, s, n in l}
            for k, s, n in l:
                if s != k and s in names:
                    rep.bad('source', '%s: record key %s' % (f.qual, k), f.where(n), 'the record stores %r of the data under the name %r' % (s, k))
                elif s == k:
                    rep.ok('source', '%s: record %r' % (f.qual, k))


# -- tuples ----------------------------------------------------------------------
def retnames(f):
    r = Reach(f.node)
    outs = []
    for x in r.ret:
        v = x.value
        if isinstance(v, ast.Name):
            d = r.one(v)
            v = d.value if d is not None and d.kind == 'assign' and d.path == () else v
        if not isinstance(v, ast.Tuple):
            return None
        outs.append([norm(e) for e in v.elts])
    if outs and all(o == outs[0] for o in outs):
        return outs[0]
    return None


def norm(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return e.slice.value
    return None


def canon(n):
    return n.lower().replace('_', '') if n else None


def like(a, b):
    return bool(a and b) and (a == b or min(len(a), len(b)) >= 5 and (a.startswith(b) or b.startswith(a)))


def target(prog, f, call):
    g = call.func
    if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == 'self' and f.cls is not None:
        return f.cls.lookup(prog, 'methods', g.attr)
    if isinstance(g, ast.Name):
        r = f.mod.resolve(g.id)
        return r[1] if r and r[0] == 'func' else None
    if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name):
        r = f.mod.resolve(g.value.id)
        if r and r[0] == 'module':
            t = prog.module_attr(r[1], g.attr)
            return t[1] if t and t[0] == 'func' else None
    return None


def unpack(rep, prog):
    funcs = list(prog.functions())
    calls = {}
    for f in funcs:
        r = None
        for n in live_nodes(f.node):
            if isinstance(n, ast.Call):
                t = target(prog, f, n)
                if t is not None:
                    calls.setdefault(t.qual, []).append((f, n))
    for f in funcs:
        r = Reach(f.node)
        for n in live_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) >= 2 and \
                    all(isinstance(t, ast.Name) for t in n.targets[0].elts):
                srcs = sources(prog, f, r, n.value, calls, 0)
                mine = [canon(t.id) for t in n.targets[0].elts]
                for g in srcs:
                    names = retnames(g)
                    if names is None or len(names) != len(mine):
                        continue
                    theirs = [canon(x) for x in names]
                    sw = [(i, j) for i in range(len(mine)) for j in range(len(mine)) if i < j and like(mine[i], theirs[j]) and like(mine[j], theirs[i]) and
                          not like(mine[i], theirs[i]) and not like(mine[j], theirs[j])]
                    if sw:
                        i, j = sw[0]
                        rep.bad('unpack', '%s from %s' % (f.qual, g.qual), f.where(n), '%s and %s are exchanged: %s returns %s' % (
                            n.targets[0].elts[i].id, n.targets[0].elts[j].id, g.name, ', '.join(str(x) for x in names)))
                    else:
                        rep.ok('unpack', '%s from %s' % (f.qual, g.qual))


def sources(prog, f, r, e, calls, depth):
    """the functions whose returned tuple the expression may be"""
    if depth > 3:
        return []
    if isinstance(e, ast.Call):
        t = target(prog, f, e)
        return [t] if t is not None else []
    if isinstance(e, ast.Name):
        out = []
        for d in r.defs(e):
            if d.kind == 'assign' and d.path == ():
                out += sources(prog, f, r, d.value, calls, depth + 1)
            elif d.kind == 'param':
                ps = f.params()
                for g, c in calls.get(f.qual, []):
                    off = 1 if f.cls is not None and not f.is_static() else 0
                    i = ps.index(d.name) - off if d.name in ps else -1
                    a = c.args[i] if 0 <= i < len(c.args) else next((k.value for k in c.keywords if k.arg == d.name), None)
                    if a is not None:
                        out += sources(prog, g, Reach(g.node), a, calls, depth + 1)
        return out
    return []


# -- arrangement of eigenvectors ---------------------------------------------------
def arrange(rep, prog):
    for f in prog.functions():
        for n in live_nodes(f.node):
            if not (isinstance(n, ast.ListComp) and isinstance(n.elt, ast.ListComp) and isinstance(n.elt.elt, ast.ListComp)):
                continue
            inner = n.elt.elt
            if isinstance(getattr(n, '_parent', None), ast.ListComp) or len(n.generators) != 1 or not isinstance(inner.elt, ast.Subscript):
                continue
            vs = [g.generators[0].target.id if isinstance(g.generators[0].target, ast.Name) else None for g in (n, n.elt, inner)]
            s = inner.elt
            if None in vs or not isinstance(s.slice, ast.Tuple) or len(s.slice.elts) != 2:
                continue
            a = {x.id for x in ast.walk(s.slice.elts[0]) if isinstance(x, ast.Name)} & set(vs)
            b = {x.id for x in ast.walk(s.slice.elts[1]) if isinstance(x, ast.Name)} & set(vs)
            name = '%s: %s' % (f.qual, ast.unparse(s.value))
            from ..pysym import Sym
            if b == {vs[0]} and a == {vs[1], vs[2]}:
                # atom * dimensions + direction: the direction has coefficient one
                p = Sym(f.node, f.mod).poly(s.slice.elts[0])
                if p.get((vs[2],)) == 1 and p.get((vs[1],)) is None:
                    rep.ok('arrange', name)
                elif p.get((vs[1],)) == 1:
                    rep.bad('arrange', name, f.where(n), 'the rows of the eigenvectors are taken as direction times atoms plus atom: they are ordered by atom, then direction')
                else:
                    rep.skip('arrange', name, 'index not recognised')
            elif a == {vs[0]} and b == {vs[1], vs[2]}:
                rep.bad('arrange', name, f.where(n), 'the modes are taken from the rows of the eigenvector matrix: they are its columns')


# -- groups of modes ---------------------------------------------------------
def searches(f):
    """(element, list of groups, name of the group, name of its position, scope) of each search of the group that contains an element"""
    out = []
    for n in live_nodes(f.node):
        gens = []
        if isinstance(n, ast.For):
            gens = [(n.target, n.iter, n.body)]
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            gens = [(g.target, g.iter, [n]) for g in n.generators]
        for target, it, body in gens:
            G = group = pos = None
            if isinstance(it, ast.Call) and (dotted(it.func) or '') == 'enumerate' and it.args and isinstance(target, ast.Tuple) and len(target.elts) == 2 and \
                    all(isinstance(x, ast.Name) for x in target.elts):
                G, pos, group = it.args[0], target.elts[0].id, target.elts[1].id
            elif isinstance(it, ast.Call) and (dotted(it.func) or '') == 'range' and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and \
                    (dotted(it.args[0].func) or '') == 'len' and isinstance(target, ast.Name):
                G, pos = it.args[0].args[0], target.id
            elif isinstance(target, ast.Name):
                G, group = it, target.id
            if not isinstance(G, ast.Name):
                continue
            for s in body:
                for c in ast.walk(s):
                    if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In) and isinstance(c.left, ast.Name):
                        w = c.comparators[0]
                        if (isinstance(w, ast.Name) and w.id == group) or is_group(w, G.id, group, pos):
                            out.append((c.left.id, G.id, group, pos, body))
    return out


def is_group(e, G, group, pos):
    if isinstance(e, ast.Name):
        return group is not None and e.id == group
    return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == G and isinstance(e.slice, ast.Name) and e.slice.id == pos


def members(rep, f):
    params = set(f.params())
    for x, G, group, pos, body in searches(f):
        if x not in params:
            continue
        key = '%s:%s in %s' % (f.qual, x, G)
        where = {}                                  # name -> 'member' or 'position'
        for s in body:
            for n in ast.walk(s):
                gens = [(n.target, n.iter)] if isinstance(n, ast.For) else [(g.target, g.iter) for g in n.generators] if isinstance(n, (ast.ListComp, ast.GeneratorExp)) else []
                for target, it in gens:
                    if is_group(it, G, group, pos) and isinstance(target, ast.Name):
                        where[target.id] = 'member'
                    elif isinstance(it, ast.Call) and it.args:
                        name, a = dotted(it.func) or '', it.args[-1]
                        if name == 'range' and len(it.args) == 1 and isinstance(a, ast.Call) and (dotted(a.func) or '') == 'len' and a.args and is_group(a.args[0], G, group, pos):
                            if isinstance(target, ast.Name):
                                where[target.id] = 'position'
                        elif name == 'enumerate' and is_group(it.args[0], G, group, pos) and isinstance(target, ast.Tuple) and len(target.elts) == 2:
                            for t, k in zip(target.elts, ('position', 'member')):
                                if isinstance(t, ast.Name):
                                    where[t.id] = k
                        elif name in ('sorted', 'list', 'set', 'reversed', 'tuple') and is_group(it.args[0], G, group, pos) and isinstance(target, ast.Name):
                            where[target.id] = 'member'
        bad = good = None
        for s in body:
            for n in ast.walk(s):
                if not isinstance(n, ast.Subscript) or not isinstance(n.value, ast.Name) or n.value.id not in params:
                    continue
                idx = n.slice.elts[-1] if isinstance(n.slice, ast.Tuple) and n.slice.elts else n.slice
                if n.value.id == G:
                    if isinstance(idx, ast.Name) and idx.id == x:
                        bad = bad or (n, 'the %s-th group is taken for the group that contains %s' % (x, x))
                    continue
                if isinstance(idx, ast.Name) and where.get(idx.id) == 'position':
                    bad = bad or (n, '%s is read at the position inside the group and not at the member of the group' % ast.unparse(n))
                elif isinstance(idx, ast.Name) and idx.id == pos:
                    bad = bad or (n, '%s is read at the number of the group and not at its members' % ast.unparse(n))
                elif (isinstance(idx, ast.Name) and where.get(idx.id) == 'member') or is_group(idx, G, group, pos):
                    good = n
        if bad is None and good is not None:
            bad = wrong_axis(body, good, where, G, group, pos)
        if bad is not None:
            rep.bad('group', key, f.where(bad[0]), bad[1])
        elif good is not None:
            rep.ok('group', key)
        else:
            rep.skip('group', key, 'what is read for the group is not seen')


def wrong_axis(body, good, where, G, group, pos):
    """the mean over the members is along the axis of the members"""
    for s in body:
        for n in ast.walk(s):
            if not isinstance(n, ast.Call) or (dotted(n.func) or '').split('.')[-1] not in ('average', 'mean', 'sum') or not n.args:
                continue
            axis = [k.value for k in n.keywords if k.arg == 'axis'] or n.args[1:2]
            if not axis or not isinstance(axis[0], ast.Constant):
                continue
            a, ax = n.args[0], axis[0].value
            if isinstance(a, ast.ListComp) and any(m is good for m in ast.walk(a.elt)) and a.elt is good and isinstance(good.slice, ast.Tuple) and len(good.slice.elts) == 2:
                if ax not in (0, -2):
                    return n, 'the average runs over the frequencies and not over the members of the group'
            elif a is good and isinstance(good.slice, ast.Tuple) and len(good.slice.elts) == 2 and is_group(good.slice.elts[1], G, group, pos):
                if ax not in (1, -1):
                    return n, 'the average runs over the frequencies and not over the members of the group'
    return None


def partition(rep, f):
    """groups built with a list of what is already taken"""
    tests = {}
    for n in live_nodes(f.node):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.test.left, ast.Name) and isinstance(n.test.comparators[0], ast.Name):
            tests.setdefault(n.test.comparators[0].id, set()).add(n.test.left.id)
    empty = {n.targets[0].id for n in live_nodes(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and
             ((isinstance(n.value, ast.List) and not n.value.elts) or (isinstance(n.value, ast.Call) and (dotted(n.value.func) or '') in ('set', 'list') and not n.value.args))}
    kept = set()
    for n in live_nodes(f.node):
        a = append_of(n) if isinstance(n, (ast.Expr, ast.AugAssign)) else None
        if a and a[0] in empty:
            v = a[1]
            while isinstance(v, (ast.Subscript, ast.Call)):
                v = v.value if isinstance(v, ast.Subscript) else v.args[0] if v.args else None
            if isinstance(v, ast.Name):
                kept.add((a[0], v.id))
    for taken, tested in tests.items():
        if taken not in empty:
            continue
        for R, S in kept:
            if R == taken or S == taken or S in tested:
                continue
            missing = None
            count = 0
            for block in blocks(f.node):
                into, marked = [], set()
                for s in block:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == S and isinstance(s.value, ast.List):
                        into += [(e, s) for e in s.value.elts]
                    a = append_of(s) if isinstance(s, (ast.Expr, ast.AugAssign)) else None
                    if a and a[0] == S:
                        into.append((a[1], s))
                    elif a and a[0] == taken:
                        marked.add(ast.unparse(a[1]))
                    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and \
                            s.value.func.value.id == taken and s.value.args:
                        if s.value.func.attr == 'add':
                            marked.add(ast.unparse(s.value.args[0]))
                        else:
                            marked.add('*')                     # extend, update
                for e, s in into:
                    count += 1
                    if ast.unparse(e) not in marked and '*' not in marked:
                        missing = (e, s)
            # marked all together, after the group is complete
            later = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extend', 'update') and isinstance(n.func.value, ast.Name) and
                        n.func.value.id == taken for n in live_nodes(f.node)) or any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == taken and
                                                                                       not isinstance(n.value, ast.List) for n in live_nodes(f.node))
            if not count:
                continue
            key = '%s:%s:%s' % (f.qual, R, taken)
            if missing and not later and isinstance(missing[0], ast.Name) and loopvar(f, missing[0].id):
                rep.bad('partition', key, f.where(missing[1]), '%s is put into a group and not marked as taken: it will be the start of another group' % missing[0].id)
            elif not missing:
                rep.ok('partition', key)
            else:
                rep.skip('partition', key, 'marks not followed')


def loopvar(f, name):
    return any(isinstance(n, ast.For) and name in {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} for n in live_nodes(f.node))


def blocks(root):
    for n in live_nodes(root):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
