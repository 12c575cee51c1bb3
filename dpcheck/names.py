"""Name, attribute, argument and format resolution over the whole program."""
import ast
import re
import string
import os

from .ext import BUILTIN_NAMES, Ext, ExtMod
from .model import Class, Func

SEEDS = {'structure': ('dynaphopy.atoms', 'Structure'), 'dynamic': ('dynaphopy.dynamics', 'Dynamics'),
         'parameters': ('dynaphopy.parameters', 'Parameters'), 'calculation': ('dynaphopy', 'Quasiparticle')}
ENDERS = {'exit', 'quit', 'sys.exit', 'os._exit', 'os.abort', 'parser.error', 'parser.exit'}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        d = dotted(n.value)
        return d + '.' + n.attr if d else None
    return None


def ends(n):
    """the statement never lets control past it"""
    if isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        return dotted(n.value.func) in ENDERS
    return False


def bound_names(node):
    """names a function body binds in its own scope (not in nested functions or classes)"""
    out, glob = set(), set()

    def rec(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            for d in n.decorator_list:
                rec(d, False)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            rec(c, False)

    if isinstance(node, ast.Lambda):
        rec(node.body, False)
    else:
        for c in node.body:
            rec(c, False)
    a = getattr(node, 'args', None)
    if isinstance(a, ast.arguments):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)
    return out - glob, glob


class State:
    __slots__ = ('have', 'const', 'facts')

    def __init__(self, have, const=None, facts=None):
        self.have, self.const, self.facts = set(have), dict(const or {}), dict(facts or {})

    def copy(self):
        return State(self.have, self.const, self.facts)

    def kill(self, name):
        self.const.pop(name, None)
        for k in [k for k in self.facts if name in self.facts[k][1]]:
            del self.facts[k]

    def key(self):
        return (frozenset(self.have), frozenset((k, repr(v)) for k, v in self.const.items()),
                frozenset((k, v[0]) for k, v in self.facts.items()))


def merge(states):
    """states that agree on what is bound are joined; the others stay apart"""
    by = {}
    for s in states:
        k = frozenset(s.have)
        o = by.get(k)
        if o is None:
            by[k] = s.copy()
        else:
            o.const = {x: v for x, v in o.const.items() if x in s.const and repr(s.const[x]) == repr(v)}
            o.facts = {x: v for x, v in o.facts.items() if s.facts.get(x) == v}
    return list(by.values())


class TooMany(Exception):
    pass


class Unbound:
    CAP = 200

    def __init__(self, nm, f):
        self.nm, self.f, self.out, self.loops = nm, f, {}, []
        self.local = nm.scope(f)

    def run(self):
        a = self.f.node.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        try:
            self.block(self.f.node.body, [State(start)])
        except TooMany:
            return []
        return list(self.out.values())

    # expressions
    def use(self, n, st):
        if n is None or isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s = st.copy()
            for g in n.generators:
                self.use(g.iter, s)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        s.have.add(x.id)
                for i in g.ifs:
                    self.use(i, s)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.use(e, s)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in st.have:
                self.out.setdefault(id(n), n)
                st.have.add(n.id)
            return
        if isinstance(n, ast.NamedExpr):
            self.use(n.value, st)
            st.have.add(n.target.id)
            st.kill(n.target.id)
            return
        if isinstance(n, ast.BoolOp):
            self.use(n.values[0], st)
            s = st
            for v in n.values[1:]:
                t = self.truth(n.values[0], st)
                if t is not None and t != isinstance(n.op, ast.And):
                    return
                self.use(v, s)
            return
        if isinstance(n, ast.IfExp):
            self.use(n.test, st)
            t = self.truth(n.test, st)
            h = st.have
            if t is not False:
                self.use(n.body, st.copy())
            if t is not True:
                self.use(n.orelse, st.copy())
            st.have = h
            return
        for c in ast.iter_child_nodes(n):
            self.use(c, st)

    def value(self, n, st):
        """(known, value)"""
        if isinstance(n, ast.Constant):
            return True, n.value
        if isinstance(n, ast.Name) and n.id in st.const:
            return True, st.const[n.id]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.truth(n.operand, st)
            return (t is not None), (not t)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            k, v = self.value(n.operand, st)
            return (k and isinstance(v, (int, float))), (-v if k and isinstance(v, (int, float)) else None)
        if isinstance(n, (ast.List, ast.Tuple)) and not n.elts:
            return True, ()
        return False, None

    def truth(self, n, st):
        k, v = self.value(n, st)
        if k:
            return bool(v)
        d = st.facts.get(ast.dump(n))
        if d is not None:
            return d[0]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.truth(n.operand, st)
            return None if t is None else not t
        if isinstance(n, ast.BoolOp):
            ts = [self.truth(v, st) for v in n.values]
            if isinstance(n.op, ast.And):
                return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            ka, a = self.value(n.left, st)
            kb, b = self.value(n.comparators[0], st)
            op = n.ops[0]
            if ka and kb:
                try:
                    if isinstance(op, (ast.Is, ast.Eq)):
                        return a is b if a is None or b is None else a == b
                    if isinstance(op, (ast.IsNot, ast.NotEq)):
                        return a is not b if a is None or b is None else a != b
                    if isinstance(op, ast.In):
                        return a in b
                    if isinstance(op, ast.NotIn):
                        return a not in b
                    if isinstance(op, ast.Lt):
                        return a < b
                    if isinstance(op, ast.Gt):
                        return a > b
                    if isinstance(op, ast.LtE):
                        return a <= b
                    if isinstance(op, ast.GtE):
                        return a >= b
                except TypeError:
                    return None
        return None

    def raises(self, n, st):
        """evaluating the test raises whatever happens"""
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            k, v = self.value(n.comparators[0], st)
            return k and (v is None or isinstance(v, (bool, int, float)))
        return False

    def assume(self, n, st, pol):
        """the state once the test came out as pol (None when it cannot)"""
        t = self.truth(n, st)
        if t is not None and t != pol:
            return None
        s = st.copy()
        self.learn(n, s, pol)
        return s

    def learn(self, n, s, pol):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.learn(n.operand, s, not pol)
            return
        names = frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name))
        if not any(isinstance(x, ast.Call) for x in ast.walk(n)):
            s.facts[ast.dump(n)] = (pol, names)
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) == pol:
            for v in n.values:
                self.learn(v, s, pol)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name):
            op, c = n.ops[0], n.comparators[0]
            if isinstance(c, ast.Constant):
                neg = isinstance(op, (ast.IsNot, ast.NotEq))
                if isinstance(op, (ast.Is, ast.Eq)) and pol or neg and not pol:
                    s.const[n.left.id] = c.value
                if c.value is None and isinstance(op, (ast.Is, ast.IsNot)):
                    o = ast.dump(ast.Compare(n.left, [ast.IsNot() if isinstance(op, ast.Is) else ast.Is()], [c]))
                    s.facts[o] = (not pol, names)
                    if (isinstance(op, ast.IsNot)) == pol:
                        pass

    def store(self, t, st, value=None):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.have.add(x.id)
                st.kill(x.id)
        if isinstance(t, ast.Name) and value is not None:
            k, v = self.value(value, st)
            if k:
                st.const[t.id] = v
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            x = t
            while isinstance(x, (ast.Subscript, ast.Attribute)):
                x = x.value
            if isinstance(x, ast.Name):
                st.kill(x.id)

    def calls(self, n, st):
        """a method called on a variable may change it"""
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                if isinstance(st.const.get(x.func.value.id), tuple):
                    st.kill(x.func.value.id)

    def loop(self, node, states, enter, leave):
        """states at the exit of a loop; enter(state) -> states running the body, leave(state) -> states leaving at the head"""
        brk, seen, out = [], {}, []
        self.loops.append((brk, cont := []))
        work, first = merge(states), True
        while work:
            nxt = []
            for s in work:
                if not first:
                    out += leave(s)
                elif isinstance(node, ast.While):
                    if self.truth(node.test, s) is False:
                        out += leave(s)
                body = enter(s)
                full = self.block(node.body, body)
                if full:
                    # an iteration that is skipped leaves no record behind that a later use could rely on:
                    # it counts as a complete one
                    sure = set.intersection(*[x.have for x in full])
                    for x in cont:
                        x.have |= sure
                nxt += full + cont
                del cont[:]
            first = False
            work = []
            for s in merge(nxt):
                k = s.key()
                if k not in seen:
                    seen[k] = True
                    work.append(s)
            if len(seen) > self.CAP:
                raise TooMany
        self.loops.pop()
        out = merge(out)
        if node.orelse:
            out = self.block(node.orelse, out)
        return merge(out + brk)

    def block(self, body, states):
        for n in body:
            if not states:
                return []
            if len(states) > self.CAP:
                raise TooMany
            states = merge(self.stmt(n, states))
        return states

    def stmt(self, n, states):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for s in states:
                s.have.add(n.name)
            return states
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for s in states:
                for al in n.names:
                    s.have.add(al.asname or al.name.split('.')[0])
            return states
        if isinstance(n, ast.Assign):
            for s in states:
                self.use(n.value, s)
                self.calls(n.value, s)
                for t in n.targets:
                    self.use(t, s)
                    self.store(t, s, n.value)
            return states
        if isinstance(n, ast.AugAssign):
            for s in states:
                self.use(n.value, s)
                if isinstance(n.target, ast.Name):
                    if n.target.id in self.local and n.target.id not in s.have:
                        self.out.setdefault(id(n.target), n.target)
                else:
                    self.use(n.target, s)
                self.store(n.target, s)
            return states
        if isinstance(n, ast.AnnAssign):
            for s in states:
                self.use(n.value, s)
                if n.value is not None:
                    self.store(n.target, s, n.value)
            return states
        if isinstance(n, (ast.For, ast.AsyncFor)):
            for s in states:
                self.use(n.iter, s)

            def enter(s):
                s = s.copy()
                self.store(n.target, s)
                return [s]
            return self.loop(n, states, enter, lambda s: [s])
        if isinstance(n, ast.While):
            def enter(s):
                s = s.copy()
                self.use(n.test, s)
                r = self.assume(n.test, s, True)
                return [r] if r is not None else []

            def leave(s):
                s = s.copy()
                self.use(n.test, s)
                r = self.assume(n.test, s, False)
                return [r] if r is not None else []
            return self.loop(n, states, enter, leave)
        if isinstance(n, ast.If):
            out = []
            for s in states:
                self.use(n.test, s)
                if self.raises(n.test, s):
                    continue
                for pol, body in ((True, n.body), (False, n.orelse)):
                    r = self.assume(n.test, s, pol)
                    if r is not None:
                        out += self.block(body, [r])
            return out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for s in states:
                for i in n.items:
                    self.use(i.context_expr, s)
                    if i.optional_vars is not None:
                        self.store(i.optional_vars, s)
            return self.block(n.body, states)
        if isinstance(n, ast.Try):
            start = [s.copy() for s in states]
            changed = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for s in start:
                for c in changed:
                    s.kill(c)
            out = self.block(n.body, states)
            if n.orelse:
                out = self.block(n.orelse, out)
            for h in n.handlers:
                hs = [s.copy() for s in start]
                for s in hs:
                    if h.name:
                        s.have.add(h.name)
                out = out + self.block(h.body, hs)
            if n.finalbody:
                if not out:
                    self.block(n.finalbody, start)
                    return []
                out = self.block(n.finalbody, merge(out))
            return out
        if isinstance(n, ast.Break):
            if self.loops:
                self.loops[-1][0].extend(s.copy() for s in states)
            return []
        if isinstance(n, ast.Continue):
            if self.loops:
                self.loops[-1][1].extend(s.copy() for s in states)
            return []
        if isinstance(n, ast.Match):
            out = []
            for s in states:
                self.use(n.subject, s)
                out.append(s.copy())
                for c in n.cases:
                    t = s.copy()
                    for x in ast.walk(c.pattern):
                        if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                            t.have.add(x.name)
                    out += self.block(c.body, [t])
            return out
        if isinstance(n, ast.Assert):
            out = []
            for s in states:
                self.use(n.test, s)
                r = self.assume(n.test, s, True)
                if r is not None:
                    out.append(r)
            return out
        for s in states:
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, ast.expr_context):
                    self.use(c, s)
                    self.calls(c, s)
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        s.have.discard(t.id)
        return [] if ends(n) else states


class Names:
    def __init__(self, prog, ext=None):
        self.prog = prog
        self.ext = ext or Ext()
        self.attr_writes = {}
        self.funcs = list(prog.functions())
        self.by_node = {id(f.node): f for f in self.funcs}
        self.bound = {}
        self.modnames = {}
        self.star_unknown = set()
        self.assigned = {}
        self.busy = set()
        self.types = {}
        self.calls = {}
        self.subclasses = {}
        self.classes = {}
        for m in prog.all_modules():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    c = m.classes.get(n.name)
                    if c is not None and c.node is n:
                        self.classes[id(n)] = c
        for c in self.classes.values():
            for b in c.mro(prog)[1:]:
                self.subclasses.setdefault(id(b.node), set()).add(id(c.node))
        for f in self.funcs:
            c = f.cls
            if c is not None and id(c.node) in self.classes:
                f.cls = self.classes[id(c.node)]
        for m in prog.all_modules():
            self.modnames[m.name] = self.module_names(m)
        self.owner = {}
        self.ckw = self.c_tables()
        self.subscript_keys = set()
        for m in prog.all_modules():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                    self.subscript_keys.add(n.slice.value)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault'):
                    for a in n.args:
                        if isinstance(a, ast.Dict):
                            self.subscript_keys |= {k.value for k in a.keys if isinstance(k, ast.Constant)}
                        if isinstance(a, ast.Constant):
                            self.subscript_keys.add(a.value)
                    self.subscript_keys |= {k.arg for k in n.keywords}
        self.index_calls()

    # ------------------------------------------------------------------ scopes
    def module_names(self, m):
        out, _ = bound_names(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                base = n.module or ''
                if base in self.prog.modules:
                    out |= {x for x in bound_names(self.prog.modules[base].tree)[0] if not x.startswith('_')}
                else:
                    self.star_unknown.add(m.name)
        if m.is_pkg:
            pre = m.name + '.'
            out |= {k[len(pre):].split('.')[0] for k in self.prog.modules if k.startswith(pre)}
        return out

    def scope(self, f):
        k = id(f.node)
        if k not in self.bound:
            self.bound[k] = bound_names(f.node)[0]
        return self.bound[k]

    def enclosing(self, n):
        """innermost function node (or None) around a node"""
        p = getattr(n, '_parent', None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            p = getattr(p, '_parent', None)
        return p

    def func_of(self, n, mod):
        p = self.enclosing(n)
        while isinstance(p, ast.Lambda):
            p = self.enclosing(p)
        return self.by_node.get(id(p)) if p is not None else None

    def resolve_scope(self, n, name):
        """'local' function node that binds the name, 'module', 'builtin' or None"""
        p = self.enclosing(n)
        # a default value or decorator is evaluated outside the function; over-approximated as inside
        while p is not None:
            k = id(p)
            if k not in self.bound:
                self.bound[k] = bound_names(p)[0]
            if name in self.bound[k]:
                return p
            p = self.enclosing(p)
        return None

    @staticmethod
    def outside(n):
        """the nearest node around a name, leaving functions whose decorators or defaults hold the name"""
        c, p = n, getattr(n, '_parent', None)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(c is d for d in p.decorator_list):
                    return p
                return n
            if isinstance(p, ast.arguments):
                g = getattr(p, '_parent', None)
                if g is not None and not isinstance(g, ast.Lambda):
                    return g
                return n
            c, p = p, getattr(p, '_parent', None)
        return n

    @staticmethod
    def never(n, mod):
        """the node stands under a test of __name__ that no way of running the module satisfies"""
        c, p = n, getattr(n, '_parent', None)
        while p is not None:
            if isinstance(p, ast.If) and any(c is b for b in p.body):
                t = p.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
                    for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
                        if isinstance(a, ast.Name) and a.id == '__name__' and isinstance(b, ast.Constant):
                            if b.value not in ('__main__', mod.name):
                                return True
            c, p = p, getattr(p, '_parent', None)
        return False

    def undefined(self, m):
        """names used and bound nowhere"""
        names = self.modnames[m.name]
        if m.name in self.star_unknown:
            return
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
                continue
            at = self.outside(n)
            if self.resolve_scope(at, n.id) is not None or n.id in names:
                yield n, True
                continue
            c = getattr(at, '_parent', None)
            incls = False
            while c is not None and not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                if isinstance(c, ast.ClassDef) and n.id in bound_names(c)[0]:
                    incls = True
                c = getattr(c, '_parent', None)
            if incls or n.id in BUILTIN_NAMES or self.guarded(n, ('NameError', 'Exception')):
                yield n, True
                continue
            yield n, False

    def guarded(self, n, excs):
        c, p = n, getattr(n, '_parent', None)
        while p is not None:
            if isinstance(p, ast.Try) and any(c is b for b in p.body):
                for h in p.handlers:
                    if h.type is None:
                        return True
                    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        if dotted(t) in excs:
                            return True
            if isinstance(p, ast.If) and any(c is b for b in p.body):
                for x in ast.walk(p.test):
                    if isinstance(x, ast.Call) and dotted(x.func) in ('hasattr',):
                        return True
            c, p = p, getattr(p, '_parent', None)
        return False

    # ------------------------------------------------------------------ definite assignment
    def unbound(self, f):
        """uses of locals that some path reaches before any assignment (path-sensitive in constants and repeated tests)"""
        return Unbound(self, f).run()

    # ------------------------------------------------------------------ imports
    def try_arms(self, n):
        """a try statement with import fallback: [bodies]"""
        for h in n.handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if h.type is None or any(dotted(t) in ('ImportError', 'ModuleNotFoundError', 'Exception') for t in ts):
                return [n.body] + [hh.body for hh in n.handlers]
        return None

    def import_ok(self, n, mod, a=None):
        """does the import resolve?  True / False / None"""
        if isinstance(n, ast.Import):
            d = a.name
            if d in self.prog.modules:
                return True
            if d.split('.')[0] == 'dynaphopy':
                return self.c_module(d)
            if not self.ext.installed(d):
                return None
            r = self.ext.find(d)
            if r is None:
                return False
            if '.' in d:
                return self.ext.find(d) is not None
            return True
        tmp = {}
        mod.add_import(n, tmp)
        base = n.module or ''
        for v in tmp.values():
            if v[0] == 'from' and v[2] == a.name:
                base = v[1]
        if base in self.prog.modules:
            m = self.prog.modules[base]
            if a.name in self.modnames[base] or base + '.' + a.name in self.prog.modules:
                return True
            if a.name == '*' or base in self.star_unknown:
                return True
            return self.c_module(base + '.' + a.name)
        if base.split('.')[0] == 'dynaphopy':
            return None
        if a.name == '*':
            return None
        if not self.ext.installed(base):
            return None
        if self.ext.find(base) is None:
            return False
        return self.ext.has(base, a.name)

    def c_module(self, d):
        """a compiled module of the package: named in setup.py"""
        try:
            with open(os.path.join(self.prog.repo, 'setup.py'), encoding='utf-8') as f:
                t = f.read()
        except OSError:
            return None
        return True if re.search(r'[\'"]%s[\'"]' % re.escape(d), t) else False

    # ------------------------------------------------------------------ C signatures
    def c_tables(self):
        """function name in C method table -> (keywords, required)"""
        out = {}
        cdir = os.path.join(self.prog.repo, 'c')
        if not os.path.isdir(cdir):
            return out
        for fn in sorted(os.listdir(cdir)):
            if not fn.endswith('.c'):
                continue
            with open(os.path.join(cdir, fn), encoding='utf-8', errors='replace') as f:
                src = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', f.read(), flags=re.S)
            table = {}
            for nm, fc in re.findall(r'\{\s*"(\w+)"\s*,\s*(?:\(\s*PyCFunction\s*\)\s*)?(?:\(void\s*\(\*\)\(void\)\)\s*)?(\w+)\s*,', src):
                table[nm] = fc
            for nm, fc in table.items():
                m = re.search(r'\b%s\s*\([^;{)]*\)\s*\{' % re.escape(fc), src)
                if not m:
                    continue
                body = src[m.end():]
                k = re.search(r'kwlist\s*\[\s*\]\s*=\s*\{([^}]*)\}', body)
                fm = re.search(r'PyArg_ParseTupleAndKeywords\s*\(\s*\w+\s*,\s*\w+\s*,\s*"([^"]*)"', body)
                if not k or not fm:
                    continue
                kws = re.findall(r'"(\w*)"', k.group(1))
                fmt = fm.group(1).split(':')[0].split(';')[0]
                req = len(re.findall(r'[A-Za-z]', fmt.split('|')[0]))
                mn = re.search(r'PyModuleDef_HEAD_INIT\s*,\s*"(\w+)"', src)
                out.setdefault(mn.group(1) if mn else fn[:-2], {})[nm] = (kws, req)
        return out

    # ------------------------------------------------------------------ types
    def index_calls(self):
        """function node id -> list of (call node, Func of caller, bound)"""
        idx = {}
        for m in self.prog.all_modules():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    for t in self.typeof(n.func, m) or ():
                        if t[0] == 'func':
                            idx.setdefault(id(t[1].node), []).append((n, m, t[2]))
                        elif t[0] == 'cls':
                            init = t[1].lookup(self.prog, 'methods', '__init__')
                            if init is not None:
                                idx.setdefault(id(init.node), []).append((n, m, True))
        self.calls = idx
        self.types = {}

    def typeof(self, n, mod):
        k = id(n)
        if k in self.types:
            return self.types[k]
        if k in self.busy or len(self.busy) > 150:
            return None
        self.busy.add(k)
        try:
            r = self._typeof(n, mod)
        finally:
            self.busy.discard(k)
        self.types[k] = r
        return r

    def from_resolved(self, r):
        if r is None:
            return None
        if r[0] == 'func':
            return {('func', r[1], False)}
        if r[0] == 'class':
            return {('cls', r[1])}
        if r[0] == 'module':
            return {('mod', r[1]) if r[1] in self.prog.modules or r[1].split('.')[0] == 'dynaphopy' else ('ext', r[1])}
        if r[0] == 'ext':
            return {('ext', r[1])}
        if r[0] == 'value':
            return self.union(r[2], r[1])
        return None

    def union(self, exprs, mod):
        out = set()
        for e in exprs:
            if isinstance(e, ast.Constant) and e.value is None:
                continue
            t = self.typeof(e, mod)
            if not t:
                return None
            out |= t
        return out or None

    def binders(self, fnode, name):
        """expressions bound to a local name, or None if bound in a way we do not follow"""
        out = []

        def rec(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                if getattr(n, 'name', None) == name:
                    return False if isinstance(n, ast.ClassDef) else out.append(n) or True
                return True
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id == name:
                            out.append(n.value)
                    elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                        return False
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        out.append(n)
            elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                p = n._parent
                if not isinstance(p, ast.Assign):
                    return False
            elif isinstance(n, ast.ExceptHandler) and n.name == name:
                return False
            for c in ast.iter_child_nodes(n):
                if rec(c) is False:
                    return False
            return True

        for c in (fnode.body if isinstance(fnode.body, list) else [fnode.body]):
            if rec(c) is False:
                return None
        return out

    def _typeof(self, n, mod):
        if isinstance(n, ast.Name):
            sc = self.resolve_scope(n, n.id)
            if sc is None:
                if n.id in self.modnames.get(mod.name, ()):
                    b = self.binders(mod.tree, n.id) if n.id not in mod.funcs and n.id not in mod.classes \
                        and n.id not in mod.imports else []
                    if b is None:
                        return None
                    return self.from_resolved(mod.resolve(n.id))
                return {('builtin', n.id)} if n.id in BUILTIN_NAMES else None
            f = self.by_node.get(id(sc))
            if f is None:
                return None
            params = f.params()
            if n.id == 'self' and params[:1] == ['self'] and f.cls is not None:
                return self.instances(f.cls)
            b = self.binders(sc, n.id)
            if b is None:
                return None
            out = set()
            a = sc.args
            if n.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                t = self.param_type(f, n.id)
                if not t:
                    return None
                out |= t
            elif (a.vararg and a.vararg.arg == n.id) or (a.kwarg and a.kwarg.arg == n.id):
                return None
            for e in b:
                if isinstance(e, ast.FunctionDef):
                    g = self.by_node.get(id(e))
                    out.add(('func', g, False))
                    continue
                if isinstance(e, (ast.Import, ast.ImportFrom)):
                    tab = {}
                    mod.add_import(e, tab)
                    t = self.from_resolved(self.prog.resolve_import(tab[n.id])) if n.id in tab else None
                    if not t:
                        return None
                    out |= t
                    continue
                if isinstance(e, ast.Constant) and e.value is None:
                    continue
                t = self.typeof(e, mod)
                if not t:
                    return None
                out |= t
            return out or None
        if isinstance(n, ast.Attribute):
            t = self.typeof(n.value, mod)
            if not t:
                return None
            out = set()
            for x in t:
                r = self.attr_type(x, n.attr)
                if not r:
                    return None
                out |= r
            return out
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d in ('copy.copy', 'copy.deepcopy', 'deepcopy', 'copy') and n.args:
                return self.typeof(n.args[0], mod)
            t = self.typeof(n.func, mod)
            if not t:
                return None
            out = set()
            for x in t:
                r = self.call_type(x)
                if not r:
                    return None
                out |= r
            return out
        if isinstance(n, ast.IfExp):
            return self.union([n.body, n.orelse], mod)
        if isinstance(n, ast.Dict):
            if n.keys and all(isinstance(k, ast.Constant) for k in n.keys):
                return {('dict', frozenset(k.value for k in n.keys))}
            return None
        if isinstance(n, (ast.List, ast.ListComp)):
            return {('val', 'list')}
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return {('val', 'str')}
        return None

    def instances(self, cls):
        return {('inst', cls)} | {('inst', self.classes[i]) for i in self.subclasses.get(id(cls.node), ())}

    def param_type(self, f, name):
        if name in SEEDS and not (f.params()[:1] == ['self'] and name == 'self'):
            c = self.prog.cls(*SEEDS[name])
            if c is not None and self.seed_fits(f, name, c):
                return {('inst', c)}
            return None
        sites = self.calls.get(id(f.node))
        if not sites:
            return None
        params = f.params()
        pos = params.index(name) if name in params else None
        defaults = dict(zip(params[len(params) - len(f.node.args.defaults):], f.node.args.defaults))
        out = set()
        for call, m, bound in sites:
            if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
                return None
            e = None
            for k in call.keywords:
                if k.arg == name:
                    e = k.value
            if e is None and pos is not None:
                p = pos - (1 if bound and params[:1] in (['self'], ['cls']) else 0)
                if 0 <= p < len(call.args):
                    e = call.args[p]
            if e is None:
                e = defaults.get(name)
            if e is None or (isinstance(e, ast.Constant) and e.value is None):
                continue
            t = self.typeof(e, m)
            if not t:
                return None
            out |= t
        return out or None

    def seed_fits(self, f, name, c):
        used = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
                used.add(n.attr)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                return False
        if not used:
            return True
        have, ok = self.members(('inst', c))
        return sum(1 for u in used if u in have) * 2 >= len(used)

    def members(self, t):
        """(names, all known)"""
        k = t[0]
        if k == 'inst':
            names, ok = set(), True
            for c in t[1].mro(self.prog):
                names |= set(c.methods) | set(c.getters) | set(c.setters) | set(c.attrs)
                for x in ast.walk(c.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                            and x.value.id in ('self', 'cls'):
                        names.add(x.attr)
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        names.add(x.name)
                if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                    ok = False
                for b in c.node.bases:
                    if isinstance(b, ast.Name) and b.id == 'object':
                        continue
                    r = c.mod.resolve(b.id) if isinstance(b, ast.Name) else None
                    if r and r[0] == 'ext':
                        d = self.ext_def(r[1])
                        if d and len(d) == 1 and isinstance(d[0][1], ast.ClassDef):
                            a, ok2 = self.ext.members(d[0][0], d[0][1])
                            names |= a
                            ok = ok and ok2
                            continue
                    if not r or r[0] != 'class':
                        ok = False
            return names | OBJECT, ok
        if k == 'extinst':
            names, ok = self.ext.members(t[1], t[2])
            return names | OBJECT, ok
        return set(), False

    def attr_type(self, t, attr):
        k = t[0]
        if k == 'mod':
            return self.from_resolved(self.prog.module_attr(t[1], attr))
        if k == 'ext':
            d = t[1] + '.' + attr
            return {('ext', d)}
        if k == 'inst':
            c = t[1]
            g = c.lookup(self.prog, 'getters', attr)
            if g is not None:
                return self.return_type(g)
            m = c.lookup(self.prog, 'methods', attr)
            if m is not None:
                return {('func', m, not m.is_static())}
            vals = []
            for cc in c.mro(self.prog):
                for x in ast.walk(cc.node):
                    if isinstance(x, ast.Assign):
                        for tt in x.targets:
                            if isinstance(tt, ast.Attribute) and tt.attr == attr and isinstance(tt.value, ast.Name) \
                                    and tt.value.id == 'self':
                                vals.append((x.value, cc.mod))
                            elif any(isinstance(y, ast.Attribute) and y.attr == attr and isinstance(y.ctx, ast.Store)
                                     for y in ast.walk(tt)):
                                return None
            if not vals:
                for cc in c.mro(self.prog):
                    for b in cc.node.bases:
                        r = cc.mod.resolve(b.id) if isinstance(b, ast.Name) else None
                        d = self.ext_def(r[1]) if r and r[0] == 'ext' else None
                        if d and len(d) == 1 and isinstance(d[0][1], ast.ClassDef):
                            return self.attr_type(('extinst',) + d[0], attr)
                return None
            out = set()
            for v, mm in vals:
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                r = self.typeof(v, mm)
                if not r:
                    return None
                out |= r
            return out or None
        if k == 'cls':
            m = t[1].lookup(self.prog, 'methods', attr)
            if m is not None:
                return {('func', m, False)}
            return None
        if k == 'extinst':
            for n in t[2].body:
                if isinstance(n, ast.FunctionDef) and n.name == attr:
                    prop = any(isinstance(d, ast.Name) and d.id == 'property' for d in n.decorator_list)
                    if prop:
                        return self.annotated(t[1], n)
                    return {('extmeth', t[1], n)}
            return None
        return None

    def annotated(self, em, fn):
        """type from the return annotation of an external function"""
        r = fn.returns
        if isinstance(r, ast.Constant) and isinstance(r.value, str):
            try:
                r = ast.parse(r.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(r, ast.Name):
            d = self.ext.definition(em.name, r.id)
            if d and len(d) == 1 and isinstance(d[0][1], ast.ClassDef):
                return {('extinst', d[0][0], d[0][1])}
        return None

    def ext_def(self, d):
        base, _, name = d.rpartition('.')
        if not base:
            return None
        b = base
        # walk modules: a.b.c
        parts = d.split('.')
        cur = parts[0]
        for i, p in enumerate(parts[1:], 1):
            if i == len(parts) - 1:
                break
            s = self.ext.submodule(cur, p)
            if s is None:
                return None
            cur = s
        return self.ext.definition(cur, name)

    def call_type(self, t):
        k = t[0]
        if k == 'cls':
            return {('inst', t[1])}
        if k == 'func':
            return self.return_type(t[1])
        if k == 'ext':
            d = self.ext_def(t[1])
            if d and len(d) == 1:
                if isinstance(d[0][1], ast.ClassDef):
                    return {('extinst', d[0][0], d[0][1])}
                return self.annotated(d[0][0], d[0][1])
            return None
        if k == 'extmeth':
            return self.annotated(t[1], t[2])
        return None

    def return_type(self, f):
        if f.node.name == '<lambda>':
            return None
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return) and self.enclosing(n) is f.node:
                if n.value is None or (isinstance(n.value, ast.Constant) and n.value.value is None):
                    continue
                out.append(n.value)
        return self.union(out, f.mod) if out else None

    # ------------------------------------------------------------------ the checks
    def missing_attr(self, n, mod):
        """None: fine or unknown.  Otherwise the description of what lacks the attribute."""
        t = self.typeof(n.value, mod)
        if not t:
            return None, False
        lacks, decided = [], False
        for x in t:
            if x[0] == 'mod':
                m = self.prog.modules.get(x[1])
                if m is None:
                    return None, False
                decided = True
                if n.attr in self.modnames[x[1]] or x[1] + '.' + n.attr in self.prog.modules or \
                        x[1] in self.star_unknown or n.attr.startswith('__') or self.c_module(x[1] + '.' + n.attr):
                    return None, True
                lacks.append('module ' + x[1])
            elif x[0] == 'ext':
                r = self.ext_has(x[1], n.attr)
                if r is None:
                    return None, False
                decided = True
                if r:
                    return None, True
                lacks.append(x[1])
            elif x[0] in ('inst', 'extinst'):
                names, ok = self.members(x)
                if n.attr in names:
                    return None, True
                if not ok:
                    return None, False
                decided = True
                lacks.append(x[1].name if x[0] == 'inst' else x[2].name)
            else:
                return None, False
        return (', '.join(sorted(set(lacks))) if lacks else None), decided

    def ext_has(self, d, attr):
        """module path d (possibly a class or value) -> has attr?"""
        parts = d.split('.')
        cur = parts[0]
        for p in parts[1:]:
            s = self.ext.submodule(cur, p)
            if s is None:
                return None
            cur = s
        if not self.ext.installed(cur):
            return None
        return self.ext.has(cur, attr)

    def signature_problem(self, call, mod):
        """(problem or None, decided)"""
        t = self.typeof(call.func, mod)
        if not t:
            return None, False
        probs, decided = [], False
        for x in t:
            if x[0] == 'func':
                p = fit(call, x[1].node, skip=1 if x[2] and x[1].params()[:1] in (['self'], ['cls']) else 0)
                what = x[1].qual
            elif x[0] == 'cls':
                init = x[1].lookup(self.prog, 'methods', '__init__')
                if init is None:
                    if any(not (isinstance(b, ast.Name) and b.id == 'object') and
                           not (isinstance(b, ast.Name) and (x[1].mod.resolve(b.id) or [''])[0] == 'class') for b in x[1].node.bases):
                        return None, False
                    p = 'takes no arguments' if call.args or call.keywords else None
                else:
                    p = fit(call, init.node, skip=1)
                what = x[1].name
            elif x[0] == 'ext':
                if x[1].startswith('dynaphopy.'):
                    mm = x[1].split('.')
                    tab = self.ckw.get(mm[-2]) if len(mm) > 2 else None
                    if tab is None:
                        return None, False
                    if mm[-1] not in tab:
                        probs.append('%s has no function %s' % (mm[-2], mm[-1]))
                        decided = True
                        continue
                    p = fit_c(call, *tab[mm[-1]])
                    what = x[1]
                else:
                    d = self.ext_def(x[1])
                    if not d:
                        return None, False
                    ps = []
                    for em, node in d:
                        if isinstance(node, ast.ClassDef):
                            inits = [b for b in node.body if isinstance(b, ast.FunctionDef) and b.name == '__init__']
                            if not inits or any(isinstance(b, ast.FunctionDef) and b.name == '__new__' for b in node.body) \
                                    or node.decorator_list:
                                return None, False
                            ps.append(fit(call, inits[0], skip=1, defining=inits))
                        else:
                            over = any(dotted(dd) in ('overload', 'typing.overload') for dd in node.decorator_list)
                            if node.decorator_list and not over and not x[1].startswith('matplotlib.'):
                                return None, False
                            if len(d) > 1 or over:
                                ps.append(fit(call, node, keywords_only=True))
                            else:
                                ps.append(fit(call, node))
                    if any(q is None for q in ps):
                        p = None
                    else:
                        p = ps[0] if ps else None
                    what = x[1]
            elif x[0] == 'extmeth':
                dec = [dotted(dd) for dd in x[2].decorator_list]
                if any(dd not in ('staticmethod', 'classmethod') for dd in dec):
                    return None, False
                p = fit(call, x[2], skip=0 if 'staticmethod' in dec else 1)
                what = x[2].name
            else:
                return None, False
            decided = True
            if p is None:
                return None, True
            probs.append('%s %s' % (what, p))
        return ('; '.join(sorted(set(probs))) if probs else None), decided

    # ------------------------------------------------------------------ records and sequences
    def source_funcs(self, e, mod):
        """package functions whose result an expression is"""
        if isinstance(e, ast.Name):
            sc = self.resolve_scope(e, e.id)
            f = self.by_node.get(id(sc)) if sc is not None else None
            if f is None or e.id in f.params():
                return set()
            b = self.binders(sc, e.id)
            if not b:
                return set()
            out = set()
            for x in b:
                r = self.source_funcs(x, mod) if isinstance(x, ast.Call) else set()
                if not r:
                    return set()
                out |= r
            return out
        if isinstance(e, ast.Call):
            t = self.typeof(e.func, mod)
            if t and all(x[0] == 'func' and isinstance(x[1].node, ast.FunctionDef) for x in t):
                return {x[1] for x in t}
        return set()

    def records(self):
        """functions whose result is read by string key somewhere"""
        if not hasattr(self, '_records'):
            self._records = {}
            for m in self.prog.all_modules():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                        for f in self.source_funcs(n.value, m):
                            self._records.setdefault(id(f.node), n)
        return self._records

    def sequence_params(self, f):
        """parameters a function unpacks pairwise or reads by number, and nowhere treats otherwise first"""
        out = set()
        ps = set(f.params())
        stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and isinstance(n.target, ast.Tuple):
                out.add(n.iter.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) \
                    and isinstance(n.slice.value, int):
                out.add(n.value.id)
        tested = {y.id for n in ast.walk(f.node) if isinstance(n, ast.Call) and dotted(n.func) in ('isinstance', 'type', 'hasattr')
                  for y in ast.walk(n) if isinstance(y, ast.Name)}
        return (out & ps) - stored - tested

    def kind_problem(self, call, mod):
        """a record (read by string keys elsewhere) given where a sequence of pairs or numbers is taken apart"""
        t = self.typeof(call.func, mod)
        if not t or len(t) != 1:
            return None, False
        x = next(iter(t))
        if x[0] != 'func' or not isinstance(x[1].node, ast.FunctionDef):
            return None, False
        f = x[1]
        seq = self.sequence_params(f)
        if not seq:
            return None, False
        ps = f.params()
        if x[2] and ps[:1] in (['self'], ['cls']):
            ps = ps[1:]
        dec = False
        for p, a in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords]:
            if p not in seq or isinstance(a, ast.Starred):
                continue
            src = self.source_funcs(a, mod)
            ty = self.typeof(a, mod) or set()
            if (src and all(id(g.node) in self.records() for g in src)) or (ty and all(y[0] == 'dict' for y in ty)):
                return 'parameter %s of %s is taken apart as a sequence but is given a dictionary' % (p, f.qual), True
            dec = True
        return None, dec

    def key_problem(self, n, mod):
        if not (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
            return None, False
        t = self.typeof(n.value, mod)
        if not t or any(x[0] != 'dict' for x in t):
            return None, False
        k = n.slice.value
        if k in self.subscript_keys or any(k in x[1] for x in t):
            return None, True
        return 'no dictionary that reaches this place has the key %r (keys: %s)' % (
            k, ', '.join(sorted({str(y) for x in t for y in x[1]}))), True


OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__weakref__', '__doc__', '__class__'}


def fit(call, node, skip=0, keywords_only=False, defining=None):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwo = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    posonly = {x.arg for x in a.posonlyargs}
    if a.kwarg is None:
        for k in call.keywords:
            if k.arg is not None and (k.arg not in pos and k.arg not in kwo or k.arg in posonly):
                return 'has no parameter %s' % k.arg
    if keywords_only:
        return None
    if not star and a.vararg is None and len(call.args) > len(pos):
        return 'takes %d positional arguments, %d are given' % (len(pos), len(call.args))
    if not star:
        given = set(pos[:len(call.args)])
        for k in call.keywords:
            if k.arg in given:
                return 'gets %s twice' % k.arg
    if not star and not dstar:
        nd = len(a.defaults)
        req = pos[:max(0, len(pos) - nd)]
        have = set(pos[:len(call.args)]) | {k.arg for k in call.keywords}
        miss = [p for p in req if p not in have]
        miss += [x for x, d in zip(kwo, a.kw_defaults) if d is None and x not in have]
        if miss:
            return 'is not given %s' % ', '.join(miss)
    return None


def fit_c(call, kws, req):
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    for k in call.keywords:
        if k.arg not in kws:
            return 'has no parameter %s' % k.arg
    if len(call.args) > len(kws):
        return 'takes %d arguments, %d are given' % (len(kws), len(call.args))
    have = set(kws[:len(call.args)]) | {k.arg for k in call.keywords}
    miss = [p for p in kws[:req] if p not in have]
    if miss:
        return 'is not given %s' % ', '.join(miss)
    return None


def format_problem(n):
    """(problem, decided) of 'text'.format(...) and 'text' % ..."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' \
            and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
        if any(isinstance(a, ast.Starred) for a in n.args):
            return None, False
        dst = any(k.arg is None for k in n.keywords)
        names = {k.arg for k in n.keywords}
        auto = 0
        try:
            fields = list(string.Formatter().parse(n.func.value.value))
            nested = []
            for _, f, spec, _ in fields:
                if spec:
                    nested += list(string.Formatter().parse(spec))
        except ValueError as e:
            return str(e), True
        for _, f, spec, conv in fields + nested:
            if f is None:
                continue
            head = re.split(r'[.\[]', f)[0]
            if head == '':
                if auto >= len(n.args):
                    return 'field %d has no argument' % auto, True
                auto += 1
            elif head.isdigit():
                if int(head) >= len(n.args):
                    return 'field {%s} has no argument' % head, True
            elif head not in names and not dst:
                return 'field {%s} has no argument' % head, True
        return None, True
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
            and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
        if any(isinstance(x, ast.Starred) for x in n.right.elts):
            return None, False
        s = re.sub(r'%%', '', n.left.value)
        if re.search(r'%\(', s):
            return None, False
        c = len(re.findall(r'%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[hlL]?[diouxXeEfFgGcrsa]', s)) + s.count('*')
        if c != len(n.right.elts):
            return '%d conversions for %d values' % (c, len(n.right.elts)), True
        return None, True
    return None, False
