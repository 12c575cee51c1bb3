"""C09: every memory mapped array has a backing file of its own, made once and removed only together with it."""
import ast

from ..model import Program
from ..names import dotted
from ..reach import Reach

UNIQUE = {'tempfile.mkstemp', 'tempfile.mktemp', 'tempfile.mkdtemp', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
          'tempfile.TemporaryDirectory', 'tempfile.SpooledTemporaryFile', 'uuid.uuid4', 'uuid.uuid1', 'secrets.token_hex',
          'secrets.token_urlsafe'}
FIXED = {'os.getpid', 'os.getppid', 'os.getcwd', 'os.getlogin', 'getpass.getuser', 'socket.gethostname', 'os.environ.get', 'os.getenv',
         'tempfile.gettempdir', 'os.path.dirname', 'len'}
FIXEDATTR = {'os.environ', 'os.curdir', 'os.sep', 'os.pardir', 'os.path.sep', 'os.linesep', 'tempfile.tempdir', 'sys.argv'}
THROUGH = {'os.path.join', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser', 'str', 'os.fspath', 'repr',
           'os.path.relpath', 'format'}
STRMETH = {'format', 'join', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'encode', 'decode', 'zfill'}
CACHES = {'lru_cache', 'cache', 'cached', 'memoize', 'cached_property'}


class World:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = list(prog.functions())
        self.bynode = {id(f.node): f for f in self.funcs}
        self._reach = {}
        self.calls = None

    def reach(self, node):
        if id(node) not in self._reach:
            self._reach[id(node)] = Reach(node)
        return self._reach[id(node)]

    def scope(self, n):
        p = getattr(n, '_parent', None)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
            p = getattr(p, '_parent', None)
        return p

    def full(self, mod, e):
        """dotted name of a library function or attribute, with the imports of the module (and the function) resolved"""
        d = dotted(e)
        if d is None:
            return None
        head, _, rest = d.partition('.')
        imp = dict(mod.imports)
        sc = self.scope(e)
        while sc is not None and not isinstance(sc, ast.Module):
            tab = {}
            for n in ast.walk(sc):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    mod.add_import(n, tab)
            imp.update(tab)
            sc = self.scope(sc)
        i = imp.get(head)
        if i is None:
            return d
        base = i[1] if i[0] == 'module' else ((i[1] + '.') if i[1] else '') + i[2]
        return base + ('.' + rest if rest else '')

    def target(self, mod, call, cls=None):
        """the function of the program a call reaches, or None"""
        f = call.func
        if isinstance(f, ast.Name):
            sc = self.scope(call)
            while sc is not None and not isinstance(sc, ast.Module):
                for n in sc.body:
                    if isinstance(n, ast.FunctionDef) and n.name == f.id:
                        return self.bynode.get(id(n))
                sc = self.scope(sc)
            r = mod.resolve(f.id)
            return self.canon(r[1]) if r and r[0] == 'func' else None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and cls is not None:
                for c in self.mro(mod, cls):
                    for n in c.body:
                        if isinstance(n, ast.FunctionDef) and n.name == f.attr:
                            return self.bynode.get(id(n))
                return None
            d = self.full(mod, f)
            if d:
                m, _, a = d.rpartition('.')
                if m in self.prog.modules:
                    r = self.prog.module_attr(m, a)
                    if r and r[0] == 'func':
                        return self.canon(r[1])
                r = mod.resolve(f.value.id) if isinstance(f.value, ast.Name) else None
                if r and r[0] == 'class':
                    m = r[1].methods.get(f.attr)
                    return self.canon(m) if m else None
        return None

    def mro(self, mod, cls):
        c = mod.classes.get(cls.name)
        return [x.node for x in c.mro(self.prog)] if c else [cls.node]

    def canon(self, f):
        return self.bynode.get(id(f.node), f)

    def callers(self, func):
        if self.calls is None:
            self.calls = {}
            for f in self.funcs:
                if isinstance(f.node, ast.Lambda):
                    continue
                for n in own(f.node):
                    if isinstance(n, ast.Call):
                        t = self.target(f.mod, n, f.cls)
                        if t is not None:
                            self.calls.setdefault(id(t.node), []).append((f, n))
        return self.calls.get(id(func.node), [])


def own(fnode):
    """nodes of a function, not of the functions nested in it"""
    st = list(fnode.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def bind(func, call):
    """parameter name -> argument expression (None when the default is used)"""
    ps = func.params()
    if func.cls is not None and not func.is_static() and ps and isinstance(call.func, ast.Attribute):
        ps = ps[1:]
    out = {}
    for p, a in zip(ps, call.args):
        if isinstance(a, ast.Starred):
            return None
        out[p] = a
    for k in call.keywords:
        if k.arg is None:
            return None
        out[k.arg] = k.value
    return out


def default(func, name):
    a = func.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(reversed(pos), reversed(a.defaults)):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


class Atoms:
    """what a file name is made of: ('unique', node, scope) 'fixed' 'static' ('array', text) ('param', name) 'unknown' ('attr', name)"""

    def __init__(self, w):
        self.w = w

    def of(self, e, func, depth=0, seen=()):
        w = self.w
        mod = func.mod
        if depth > 12:
            return {'unknown'}
        if isinstance(e, ast.Constant):
            return {'fixed'}
        if isinstance(e, ast.JoinedStr):
            out = {'fixed'}
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    out |= self.of(v.value, func, depth + 1, seen)
            return out
        if isinstance(e, ast.BinOp):
            return self.of(e.left, func, depth + 1, seen) | self.of(e.right, func, depth + 1, seen)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = {'fixed'}
            for x in e.elts:
                out |= self.of(x, func, depth + 1, seen)
            return out
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= self.of(x, func, depth + 1, seen)
            return out
        if isinstance(e, ast.IfExp):
            return self.merge([self.of(e.body, func, depth + 1, seen), self.of(e.orelse, func, depth + 1, seen)])
        if isinstance(e, ast.Attribute):
            d = w.full(mod, e)
            if d in FIXEDATTR:
                return {'fixed'}
            if e.attr in ('name', 'hex', 'int') and not (isinstance(e.value, ast.Name) and e.value.id == 'self'):
                return self.of(e.value, func, depth + 1, seen)
            if e.attr == 'filename':
                return {('array', ast.unparse(e))}
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and func.cls is not None:
                return self.attr(e.attr, func, depth, seen)
            return {'unknown'}
        if isinstance(e, ast.Subscript):
            d = w.full(mod, e.value)
            if d in FIXEDATTR:
                return {'fixed'}
            if isinstance(e.value, ast.Call) and w.full(mod, e.value.func) in UNIQUE and not isinstance(e.slice, ast.Slice):
                return self.of(e.value, func, depth + 1, seen)
            if isinstance(e.slice, ast.Slice):
                a = self.of(e.value, func, depth + 1, seen)
                return {'fixed' if a <= {'fixed'} else 'unknown'}
            a = self.of(e.value, func, depth + 1, seen)
            return {'fixed'} if a <= {'fixed'} else {'unknown'}
        if isinstance(e, ast.Call):
            d = w.full(mod, e.func)
            if d in UNIQUE:
                return {('unique', e, func.node)}
            if d in FIXED:
                return {'fixed'}
            if d in THROUGH:
                out = {'fixed'}
                for a in e.args:
                    out |= self.of(a, func, depth + 1, seen)
                return out
            if isinstance(e.func, ast.Attribute) and e.func.attr in STRMETH:
                out = self.of(e.func.value, func, depth + 1, seen)
                for a in e.args + [k.value for k in e.keywords]:
                    out |= self.of(a, func, depth + 1, seen)
                return out
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('hexdigest', 'getvalue'):
                return {'unknown'}
            t = w.target(mod, e, func.cls)
            if t is not None and id(t.node) not in seen:
                return self.result(t, e, func, depth, seen)
            return {'unknown'}
        if isinstance(e, ast.Name):
            return self.name(e, func, depth, seen)
        return {'unknown'}

    @staticmethod
    def merge(sets):
        """alternatives: unique only when each of them is"""
        u = [s for s in sets if any(isinstance(a, tuple) and a[0] == 'unique' for a in s)]
        out = set()
        for s in sets:
            out |= s
        if u and len(u) != len(sets):
            rest = [s for s in sets if s not in u]
            if all(s <= {'fixed', 'static'} for s in rest):
                return {'fixed'}
            return {'unknown'}
        return out

    def name(self, e, func, depth, seen):
        w = self.w
        if e.id in ('True', 'False', 'None'):
            return {'fixed'}
        sc = w.scope(e)
        if sc is None or isinstance(sc, ast.Module):
            return self.module(e.id, func)
        ds = w.reach(sc).defs(e)
        f = w.bynode.get(id(sc), func)
        if not ds:
            return {'unknown'}
        alts = []
        for d in ds:
            if d.kind == 'param':
                alts.append({('param', d.name)})
            elif d.kind == 'free':
                alts.append(self.module(d.name, f))
            elif d.kind == 'assign':
                if ('d', id(d.stmt), d.name) in seen:
                    alts.append({'unknown'})
                    continue
                s2 = seen + (('d', id(d.stmt), d.name),)
                v = d.value
                for i in d.path:
                    if isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts):
                        v = v.elts[i]
                a = self.of(v, f, depth + 1, s2)
                alts.append({('unique', d.stmt, f.node) if isinstance(x, tuple) and x[0] == 'unique' else x for x in a})
            elif d.kind == 'aug':
                if ('d', id(d.stmt), d.name) in seen:
                    alts.append({'fixed'})
                    continue
                s2 = seen + (('d', id(d.stmt), d.name),)
                out = self.of(d.value.value, f, depth + 1, s2)
                for p in d.prev or ():
                    if p.kind == 'assign':
                        out = out | self.of(p.value, f, depth + 1, s2)
                    elif p.kind == 'param':
                        out = out | {('param', p.name)}
                    elif p.kind != 'aug':
                        out = out | {'unknown'}
                alts.append(out)
            elif d.kind == 'with':
                alts.append(self.of(d.value, f, depth + 1, seen))
            else:
                alts.append({'unknown'})
        return self.merge(alts)

    def module(self, name, func):
        r = func.mod.resolve(name)
        if r and r[0] == 'value':
            alts = []
            for v in r[2]:
                out = set()
                for n in ast.walk(v):
                    if isinstance(n, ast.Call):
                        d = self.w.full(r[1], n.func)
                        if d in UNIQUE:
                            out.add('static')
                        elif d in FIXED or d in THROUGH or isinstance(n.func, ast.Attribute) and n.func.attr in STRMETH:
                            out.add('fixed')
                        else:
                            out.add('unknown')
                alts.append(out or {'fixed'})
            # a counter or table changed by the functions is not a constant
            for n in ast.walk(r[1].tree):
                if isinstance(n, ast.Global) and name in n.names:
                    return {'unknown'}
            return set().union(*alts) if alts else {'unknown'}
        return {'unknown'}

    def attr(self, name, func, depth, seen):
        vals = []
        for c in self.w.mro(func.mod, func.cls):
            for f in self.w.funcs:
                if f.cls is not None and f.cls.node is c:
                    for n in own(f.node):
                        if isinstance(n, (ast.Assign, ast.AugAssign)):
                            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                            for t in ts:
                                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                    vals.append((f, n.value, n))
        out = set()
        for f, v, n in vals:
            if ('a', id(v)) in seen:
                continue
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            a = self.of(v, f, depth + 1, seen + (('a', id(v)),))
            if any(x == 'unknown' or isinstance(x, tuple) and x[0] == 'param' for x in a):
                return {'unknown'}
            out |= {('objattr', name) if isinstance(x, tuple) and x[0] == 'unique' else x for x in a}
        return out or {'unknown'}

    def result(self, t, call, func, depth, seen):
        """atoms of the value returned by a function of the program"""
        for d in t.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            nm = dotted(x)
            if nm and nm.split('.')[-1] in CACHES:
                return {'static'}
            if nm not in ('staticmethod', 'classmethod', 'property'):
                return {'unknown'}
        b = bind(t, call)
        r = self.w.reach(t.node)
        alts = []
        for ret in r.ret:
            if ret.value is None:
                return {'unknown'}
            a = self.of(ret.value, t, depth + 1, seen + (id(t.node),))
            out = set()
            for x in a:
                if isinstance(x, tuple) and x[0] == 'unique':
                    out.add(('unique', call, func.node))
                elif isinstance(x, tuple) and x[0] == 'param':
                    if b is None:
                        out.add('unknown')
                    elif x[1] in b:
                        out |= self.of(b[x[1]], func, depth + 1, seen)
                    else:
                        dv = default(t, x[1])
                        if dv is None:
                            out.add('unknown')
                        else:
                            s = self.of(dv, t, depth + 1, seen)
                            out |= {'static' if isinstance(y, tuple) and y[0] == 'unique' else y for y in s}
                else:
                    out.add(x)
            alts.append(out)
        return self.merge(alts) if alts else {'unknown'}


def is_creation(w, mod, n):
    """-> file name expression of a call making (or opening for writing) a memory mapped array, or None"""
    if not isinstance(n, ast.Call):
        return None
    d = w.full(mod, n.func)
    if d in ('numpy.memmap', 'numpy.core.memmap', 'numpy.core.memmap.memmap'):
        kw = {k.arg: k.value for k in n.keywords}
        mode = kw.get('mode', n.args[2] if len(n.args) > 2 else None)
        fn = kw.get('filename', n.args[0] if n.args else None)
    elif d in ('numpy.lib.format.open_memmap',):
        kw = {k.arg: k.value for k in n.keywords}
        mode = kw.get('mode', n.args[1] if len(n.args) > 1 else None)
        fn = kw.get('filename', n.args[0] if n.args else None)
    else:
        return None
    if isinstance(mode, ast.Constant) and mode.value in ('r', 'c', 'readonly', 'copyonwrite'):
        return None
    return fn


def ancestors(n, stop):
    p = getattr(n, '_parent', None)
    while p is not None and p is not stop:
        yield p
        p = getattr(p, '_parent', None)


def exclusive(a, b, fnode):
    """two nodes in different arms of one if"""
    def arms(n):
        out = {}
        c = n
        for p in ancestors(n, fnode):
            if isinstance(p, ast.If):
                out[id(p)] = 'b' if any(c is x for x in p.body) else 'o'
            c = p
        return out
    x, y = arms(a), arms(b)
    return any(k in y and y[k] != v for k, v in x.items())


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def once_guard(node, loop, fnode):
    """'once' the creation is executed at most once in the loop, 'no', or 'unknown'"""
    c = node
    for p in ancestors(node, loop):
        if isinstance(p, ast.If):
            inbody = any(c is x for x in p.body)
            body = p.body if inbody else p.orelse
            t = p.test
            neg = not inbody
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, not neg
            parts = [t]
            if isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And) and not neg or isinstance(t.op, ast.Or) and neg):
                parts = t.values
            loopn = set()
            for s in ast.walk(loop):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                    for x in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        loopn |= target_names(x)
            for q in parts:
                r = self_guard(q, neg, body, loop, loopn)
                if r == 'once':
                    return 'once'
                if r == 'unknown':
                    return 'unknown'
        if isinstance(p, (ast.For, ast.While)):
            pass
        if isinstance(p, ast.Try):
            pass
        c = p
    # an unconditional way out of the loop right after the creation
    c = node
    for p in ancestors(node, loop):
        for f in ('body', 'orelse'):
            b = getattr(p, f, None)
            if isinstance(b, list) and c in b:
                rest = b[b.index(c):]
                if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in rest):
                    return 'once'
        c = p
    if c in loop.body and any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in loop.body[loop.body.index(c):]):
        return 'once'
    return 'no'


def self_guard(t, neg, body, loop, loopn):
    """does executing `body` make the (possibly negated) test false for the rest of the loop?"""
    flip = neg
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, flip = t.operand, not flip
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, t.ops[0], t.comparators[0]
        isnone = isinstance(r, ast.Constant) and r.value is None
        if isnone and isinstance(op, (ast.Is, ast.Eq)) and not flip or isnone and isinstance(op, (ast.IsNot, ast.NotEq)) and flip:
            key = ast.unparse(l)
            inb, outb = assigns(body, key), assigns(loop.body, key)
            if not inb:
                # set elsewhere in the turn?
                if any(not is_none(v) for v in outb):
                    return 'once' if not any(is_none(v) for v in outb) else 'unknown'
                return 'no'
            if any(is_none(v) for v in outb):
                return 'unknown'
            return 'once'
        if isnone and isinstance(op, (ast.IsNot, ast.NotEq, ast.Is, ast.Eq)):
            vals = assigns(loop.body, ast.unparse(l))
            return 'unknown' if any(is_none(v) for v in vals) else 'no'
        if isinstance(op, (ast.Eq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is)) and names_in(t) & loopn:
            return 'unknown' if not isinstance(op, ast.Eq) else 'once'
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In, ast.NotIn)) and \
                not (names_in(t) & loopn) and not any(isinstance(n, ast.Call) for n in ast.walk(t)):
            return 'no'       # the same answer at every turn
        return 'unknown'
    if isinstance(t, ast.Name):
        if t.id not in loopn:
            return 'no'
        vals = assigns(body, t.id)
        want = flip          # `not flag` : body must set it to true
        if vals and all(isinstance(v, ast.Constant) and bool(v.value) == want for v in assigns(loop.body, t.id)):
            return 'once'
        return 'unknown'
    if any(isinstance(n, ast.Call) for n in ast.walk(t)):
        return 'unknown'
    return 'unknown' if names_in(t) & loopn else 'no'


def assigns(body, key):
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if ast.unparse(x) == key:
                            out.append(n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and ast.unparse(n.target) == key:
                out.append(n.value)
            elif isinstance(n, ast.NamedExpr) and n.target.id == key:
                out.append(n.value)
            elif isinstance(n, ast.For) and key in target_names(n.target):
                out.append(n.iter)
    return out


def is_none(v):
    return isinstance(v, ast.Constant) and v.value is None


def stored_in(loop, key):
    """is an element or slice of `key` stored in the loop, other than in the creation itself"""
    for n in ast.walk(loop):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == key:
            return True
        if isinstance(n, ast.AugAssign) and (ast.unparse(n.target) == key):
            return True
    return False


def used_after(fnode, loop, key):
    inside = {id(x) for x in ast.walk(loop)}
    for n in own(fnode):
        if id(n) not in inside and isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load) \
                and n.lineno > loop.lineno and ast.unparse(n) == key:
            return True
    return key.startswith('self.')


def run(rep):
    prog = Program()
    w = World(prog)
    at = Atoms(w)
    rep.rule('own-file', 'the file of a memory mapped array is made of a name that no other array can have (a unique one, made anew for each array)')
    rep.rule('made-once', 'an array that is being filled in a loop is not created (emptied) again in it')
    rep.rule('removed-with-array', 'outside the destructor, removing the file of an array goes with discarding that array, which owns its file')
    rep.rule('removes-own', 'only the file of an array of the object is removed, never files found by a pattern or a fixed name')

    # functions that hand out a new memory mapped array, transitively
    sites = []           # (func, call, filename expr or None)
    makers = {}
    for f in w.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own(f.node):
            fn = is_creation(w, f.mod, n)
            if fn is not None:
                sites.append((f, n, fn))
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If)):
                continue
    todo = list(sites)
    while todo:
        f, n, fn = todo.pop()
        if id(f.node) in makers:
            continue
        r = w.reach(f.node)
        for ret in r.ret:
            v = ret.value
            if v is n or isinstance(v, ast.Name) and any(d.kind == 'assign' and d.value is n for d in r.defs(v)):
                makers[id(f.node)] = f
                for cf, c in w.callers(f):
                    todo.append((cf, c, None))
                    sites.append((cf, c, None))
                break

    # own-file
    resolved = []      # (func, creation, list of unique nodes)
    done = set()

    def decide(f, n, atoms, chain, depth=0):
        where = f.where(n)
        key = '%s:%s' % (f.mod.rel, f.qual.split(':')[1])
        params = {a[1] for a in atoms if isinstance(a, tuple) and a[0] == 'param'}
        arr = [a for a in atoms if isinstance(a, tuple) and a[0] == 'array']
        uni = [a for a in atoms if isinstance(a, tuple) and a[0] == 'unique']
        if arr:
            rep.bad('own-file', key, where, 'the array is made on the file of another one (%s)' % arr[0][1])
            return
        if uni:
            rep.ok('own-file', '%s %s' % (key, ast.unparse(n)[:60]))
            resolved.append((f, n, uni))
            return
        if params:
            cs = w.callers(f)
            if not cs or depth > 4:
                rep.skip('own-file', key, 'the file name is a parameter')
                return
            for cf, c in cs:
                b = bind(f, c)
                out = {a for a in atoms if not (isinstance(a, tuple) and a[0] == 'param')}
                for p in params:
                    if b is None:
                        out.add('unknown')
                        continue
                    e = b.get(p)
                    if e is not None:
                        out |= at.of(e, cf)
                    else:
                        dv = default(f, p)
                        s = at.of(dv, f) if dv is not None else {'unknown'}
                        out |= {'static' if isinstance(y, tuple) and y[0] == 'unique' else y for y in s}
                decide(cf, c, out, chain + [f], depth + 1)
            return
        if 'unknown' in atoms or any(isinstance(a, tuple) for a in atoms):
            rep.skip('own-file', key, 'the origin of the file name is not followed (%s)' % ast.unparse(n)[:80])
            return
        what = 'is made once and shared' if 'static' in atoms else 'is the same for every array made here'
        rep.bad('own-file', key, where, 'the name of the backing file %s: two arrays alive at a time share it (%s)' % (what, ast.unparse(n)[:90]))

    for f, n, fn in sites:
        if fn is not None and id(n) not in done:
            done.add(id(n))
            decide(f, n, at.of(fn, f), [])

    # one unique name used for two arrays, or for one made again and again
    byname = {}
    for f, n, uni in resolved:
        for u in uni:
            byname.setdefault(id(u[1]), []).append((f, n, u))
    for lst in byname.values():
        for i, (f, n, u) in enumerate(lst):
            for (g, m, v) in lst[i + 1:]:
                if m is not n and f.node is g.node and not exclusive(n, m, f.node):
                    rep.bad('own-file', '%s:%s:shared' % (f.mod.rel, f.qual.split(':')[1]), g.where(m),
                            'two arrays are made on the file named at line %d' % u[1].lineno)
            if isinstance(u[1], ast.stmt) and u[2] is f.node:
                for lp in ancestors(n, f.node):
                    if isinstance(lp, (ast.For, ast.While)) and not any(u[1] is x for x in ast.walk(lp)) \
                            and once_guard(n, lp, f.node) == 'no':
                        rep.bad('own-file', '%s:%s:loop' % (f.mod.rel, f.qual.split(':')[1]), f.where(n),
                                'each turn of the loop makes an array on the same file (named at line %d)' % u[1].lineno)

    # made-once
    seen = set()
    for f, n, fn in sites:
        if id(n) in seen:
            continue
        seen.add(id(n))
        if id(f.node) in makers and fn is not None and not any(isinstance(p, (ast.For, ast.While)) for p in ancestors(n, f.node)):
            pass
        key = '%s:%s' % (f.mod.rel, f.qual.split(':')[1])
        st = n
        for p in ancestors(n, f.node):
            if isinstance(p, ast.stmt):
                st = p
                break
        var = None
        if isinstance(st, ast.Assign) and st.value is n and len(st.targets) == 1:
            var = ast.unparse(st.targets[0])
        loops = [p for p in ancestors(n, f.node) if isinstance(p, (ast.For, ast.While))]
        loops = [p for p in loops if any(st is x or st in list(ast.walk(x)) for x in p.body)]
        bad = False
        for lp in loops:
            if var is None:
                rep.skip('made-once', key, 'the array is not given a name')
                break
            if not stored_in(lp, var) or not used_after(f.node, lp, var):
                continue
            g = once_guard(n, lp, f.node)
            if g == 'no':
                rep.bad('made-once', key, f.where(n), '%s is created again at every turn of the loop that fills it: what the earlier turns stored is lost' % var)
                bad = True
            elif g == 'unknown':
                rep.skip('made-once', key, 'the condition of the creation is not followed')
        if not bad:
            rep.ok('made-once', '%s %s (in %d loops)' % (key, var, len(loops)))

    # a method that fills a kept array and can be reached while it is being filled: creation of an attribute must not be
    # re-executed by its own accessor
    for f, n, fn in sites:
        if f.cls is None:
            continue
        st = next((p for p in ancestors(n, f.node) if isinstance(p, ast.stmt)), None)
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and ast.unparse(st.targets[0]).startswith('self.')):
            continue
        attr = ast.unparse(st.targets[0])
        guarded = False
        c = st
        for p in ancestors(st, f.node):
            if isinstance(p, ast.If) and attr in ast.unparse(p.test):
                guarded = True
        # an early return when the array is there
        for s in f.node.body:
            if isinstance(s, ast.If) and attr in ast.unparse(s.test) and any(isinstance(x, ast.Return) for x in s.body):
                guarded = True
        accessor = f.node.name
        selfuse = [x for x in own(f.node) if isinstance(x, ast.Attribute) and x.attr == accessor and isinstance(x.value, ast.Name)
                   and x.value.id == 'self' and x.lineno >= st.lineno]
        if selfuse and not guarded:
            rep.bad('made-once', '%s:%s:%s' % (f.mod.rel, f.qual.split(':')[1], attr), f.where(st),
                    '%s is created again by %s, which is asked for while the array is filled' % (attr, accessor))
        elif not guarded:
            rep.skip('made-once', '%s %s' % (f.qual, attr), 'no test of the attribute around its creation')

    removals(rep, prog, w)
    rep.need(prog.find_class('Dynamics') is not None, 'class Dynamics not found')
    rep.info['creations'] = len([s for s in sites if s[2] is not None])
    rep.info['functions_analysed'] = len(w.funcs)
    rep.assumptions.append('tempfile and uuid give names that are not in use; the temporary directory is not cleaned by others.')


REMOVE = {'os.remove', 'os.unlink', 'shutil.rmtree', 'os.rename', 'os.replace', 'shutil.move', 'os.truncate'}


def removals(rep, prog, w):
    # removers: functions which remove the file of a parameter  (name -> set of parameter names)
    removers = {}

    def file_of(e, f, depth=0):
        """('param', p) / ('attr', a) / ('name', text) when e is the file name of that array; 'fixed'; 'glob'; None"""
        mod = f.mod
        if depth > 8:
            return None
        if isinstance(e, ast.Attribute) and e.attr == 'filename':
            return owner(e.value, f, depth + 1)
        if isinstance(e, ast.Call):
            d = w.full(mod, e.func)
            if d == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value == 'filename':
                return owner(e.args[0], f, depth + 1)
            if d in ('str', 'os.fspath', 'os.path.abspath'):
                return file_of(e.args[0], f, depth + 1) if e.args else None
            return None
        if isinstance(e, ast.Constant):
            return ('fixed',)
        if isinstance(e, ast.Name):
            r = w.reach(f.node)
            ds = r.defs(e)
            outs = set()
            for d in ds:
                if d.kind == 'assign' and not d.path:
                    outs.add(file_of(d.value, f, depth + 1))
                elif d.kind == 'for' and not d.path:
                    v = d.value
                    if isinstance(v, ast.Call) and (w.full(mod, v.func) or '') in ('glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir'):
                        outs.add(('glob',))
                    else:
                        outs.add(None)
                else:
                    outs.add(None)
            return outs.pop() if len(outs) == 1 else None
        return None

    def owner(e, f, depth):
        if isinstance(e, ast.Name):
            r = w.reach(f.node)
            ds = r.defs(e)
            if len(ds) == 1:
                d = next(iter(ds))
                if d.kind == 'param':
                    return ('param', d.name)
                if d.kind == 'for' and not d.path and isinstance(d.value, (ast.List, ast.Tuple)):
                    got = [owner(x, f, depth + 1) for x in d.value.elts]
                    if all(g is not None for g in got):
                        return ('many', tuple(got))
                if d.kind == 'for' and not d.path and isinstance(d.value, ast.Name):
                    d2 = r.one(d.value)
                    if d2 and d2.kind == 'assign' and isinstance(d2.value, (ast.List, ast.Tuple)):
                        got = [owner(x, f, depth + 1) for x in d2.value.elts]
                        if all(g is not None for g in got):
                            return ('many', tuple(got))
                if d.kind == 'assign' and not d.path:
                    return owner(d.value, f, depth + 1)
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return ('attr', e.attr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 and \
                isinstance(e.args[0], ast.Name) and e.args[0].id == 'self':
            if isinstance(e.args[1], ast.Constant):
                return ('attr', e.args[1].value)
            if isinstance(e.args[1], ast.Name):
                d = w.reach(f.node).one(e.args[1])
                if d and d.kind == 'for' and isinstance(d.value, (ast.List, ast.Tuple)) and \
                        all(isinstance(x, ast.Constant) for x in d.value.elts):
                    return ('many', tuple(('attr', x.value) for x in d.value.elts))
        return None

    def flat(o):
        if o and o[0] == 'many':
            out = []
            for x in o[1]:
                out += flat(x)
            return out
        return [o] if o else []

    work = []
    for f in w.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own(f.node):
            if isinstance(n, ast.Call) and w.full(f.mod, n.func) in REMOVE and n.args:
                o = file_of(n.args[0], f)
                key = '%s:%s' % (f.mod.rel, f.qual.split(':')[1])
                if o is None:
                    rep.skip('removes-own', key, 'what is removed is not followed')
                elif o[0] in ('glob',):
                    rep.bad('removes-own', key, f.where(n), 'files found by a pattern are removed, whichever array they belong to')
                else:
                    rep.ok('removes-own', '%s %s' % (key, ast.unparse(n)))
                    work.append((f, n, o))
    seen = set()
    events = []        # (method, node, attr)
    while work:
        f, n, o = work.pop()
        if (id(f.node), id(n)) in seen:
            continue
        seen.add((id(f.node), id(n)))
        for x in flat(o):
            if x[0] == 'param':
                for cf, c in w.callers(f):
                    b = bind(f, c)
                    e = b.get(x[1]) if b else None
                    if e is not None:
                        o2 = owner(e, cf, 0)
                        if o2 is not None:
                            work.append((cf, c, o2))
            elif x[0] == 'attr' and f.cls is not None:
                events.append((f, n, x[1]))
    for f, n, attr in events:
        key = '%s:%s:%s' % (f.mod.rel, f.qual.split(':')[1], attr)
        if f.node.name in ('__del__', '__exit__', 'close'):
            rep.ok('removed-with-array', '%s (destructor)' % key)
            continue
        stores = []
        for x in own(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if ast.unparse(y) == 'self.' + attr and gives_up(w, f, n, x, attr):
                            stores.append(x)
            if isinstance(x, ast.Delete) and any(ast.unparse(t) == 'self.' + attr for t in x.targets):
                stores.append(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3:
                stores.append(x)
        if not stores:
            if f.node.name.startswith('_') and (any(True for _ in w.callers(f))):
                bad_callers = [cf for cf, c in w.callers(f) if not resets(cf, attr)]
                if not bad_callers:
                    rep.ok('removed-with-array', key)
                    continue
            rep.bad('removed-with-array', key, f.where(n), 'the file of self.%s is removed but the array is kept in use' % attr)
            continue
        # the array given up must be the one whose file was removed: its value is its own, not a view of another attribute
        al = alias_of(w, f, attr)
        if al:
            rep.bad('removed-with-array', key, f.where(n), 'self.%s may be the same array as %s (%s): removing its file removes the file of the other' % (attr, al[0], al[1]))
        else:
            rep.ok('removed-with-array', key)


def gives_up(w, f, removal, store, attr):
    """the assignment discards the array whose file the call removes"""
    if is_part(w, f, store.value, attr, 0):
        return False          # a part of the same array is kept
    if store.lineno >= removal.lineno or store in list(ancestors(removal, f.node)):
        return True
    # assigned before: the removal must use the old array, kept in a local name
    return not any(isinstance(a, ast.Attribute) and ast.unparse(a) == 'self.' + attr for x in
                   ([removal] + [p for p in ancestors(removal, f.node) if isinstance(p, ast.For)])
                   for a in ast.walk(x if isinstance(x, ast.Call) else x.iter))


def is_part(w, g, e, attr, depth):
    if depth > 6:
        return False
    if isinstance(e, ast.Attribute) and ast.unparse(e) == 'self.' + attr:
        return True
    if isinstance(e, ast.Subscript):
        return is_part(w, g, e.value, attr, depth + 1)
    if isinstance(e, ast.Name):
        return any(d.kind == 'assign' and not d.path and is_part(w, g, d.value, attr, depth + 1) for d in w.reach(g.node).defs(e))
    return False


def resets(f, attr):
    for x in own(f.node):
        if isinstance(x, ast.Assign) and any(ast.unparse(t) == 'self.' + attr for t in x.targets):
            return True
    return False


FRESH = {'copy', 'empty_like', 'zeros_like', 'empty', 'zeros', 'memmap', 'array', 'ones', 'dot', 'gradient', 'full'}


def alias_of(w, f, attr):
    """(text of the other attribute, place) when some assignment to self.attr stores another attribute's array"""
    for g in w.funcs:
        if g.cls is None or g.cls.name != f.cls.name or g.mod is not f.mod:
            continue
        for x in own(g.node):
            if isinstance(x, ast.Assign) and any(ast.unparse(t) == 'self.' + attr for t in x.targets):
                o = base_of(w, g, x.value, attr, 0)
                if o:
                    return (o, g.where(x))
    return None


def base_of(w, g, e, attr, depth):
    if depth > 6:
        return None
    if isinstance(e, ast.IfExp):
        return base_of(w, g, e.body, attr, depth + 1) or base_of(w, g, e.orelse, attr, depth + 1)
    if isinstance(e, ast.Subscript):
        parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if all(isinstance(p, (ast.Slice, ast.Constant)) for p in parts):
            return base_of(w, g, e.value, attr, depth + 1)
        return None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        if e.attr == attr:
            return None
        nm = e.attr
        return 'self.' + nm
    if isinstance(e, ast.Attribute) and e.attr in ('real', 'T'):
        return base_of(w, g, e.value, attr, depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('view', 'reshape'):
        return base_of(w, g, e.func.value, attr, depth + 1)
    if isinstance(e, ast.Call):
        d = w.full(g.mod, e.func)
        if d in ('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.real', 'numpy.atleast_3d') and e.args:
            return base_of(w, g, e.args[0], attr, depth + 1)
        return None
    if isinstance(e, ast.Name):
        for d in w.reach(g.node).defs(e):
            if d.kind == 'assign' and not d.path:
                o = base_of(w, g, d.value, attr, depth + 1)
                if o:
                    return o
    return None
