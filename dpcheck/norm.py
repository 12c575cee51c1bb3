"""Normal form of the sources: private helpers that only carry a part of one function are put back in their place and
temporaries that only name one expression are replaced by it, so that the analyses judge what the code does and not how
it is cut into pieces.  Every step keeps the meaning; what does not fit the simple forms is left as it is."""
import ast
import copy

DEFS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = DEFS + (ast.Lambda, ast.ClassDef)


def strip(body):
    return [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
            and not isinstance(s, ast.Pass)]


def private(name):
    return name.startswith('_') and not name.endswith('__')


def own(node):
    """the nodes of a function without those of functions and classes in it"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, SCOPES):
            stack.extend(ast.iter_child_nodes(n))


def names_in(nodes, ctx=None):
    return {n.id for x in (nodes if isinstance(nodes, list) else [nodes]) for n in ast.walk(x)
            if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def blocks(node):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(node, 'handlers', []) or []:
        yield h.body


def all_blocks(fn):
    stack = [fn]
    while stack:
        n = stack.pop()
        for b in blocks(n):
            yield b
            for s in b:
                if not isinstance(s, SCOPES):
                    stack.append(s)
                    stack.extend(getattr(s, 'handlers', []) or [])


def ends(body):
    """control never runs off the end of body"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False


def has_return(nodes):
    for s in nodes:
        if isinstance(s, ast.Return):
            return True
        if not isinstance(s, SCOPES) and any(isinstance(n, ast.Return) for n in own(s)):
            return True
    return False


class NoForm(Exception):
    pass


def tail(body, make):
    """body with each return replaced by make(value); every return must be the last thing done"""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            return out + make(s.value, s)
        if not has_return([s]):
            out.append(s)
            continue
        rest = body[i + 1:]
        if isinstance(s, ast.If):
            if not rest or (ends(s.body) and (not s.orelse or not has_return(s.orelse) or ends(s.orelse))):
                a, b = s.body, s.orelse + ([] if s.orelse and ends(s.orelse) else rest)
            elif s.orelse and ends(s.orelse):
                a, b = s.body + rest, s.orelse
            else:
                raise NoForm()
            n = ast.copy_location(ast.If(s.test, tail(a, make) or [ast.copy_location(ast.Pass(), s)], tail(b, make)), s)
            return out + [n]
        if isinstance(s, ast.With) and (not rest or ends(s.body)):
            n = copy.copy(s)
            n.body = tail(s.body, make)
            return out + [n]
        raise NoForm()
    return out + make(None, None)


class Subst(ast.NodeTransformer):
    """names replaced by names or by expressions"""

    def __init__(self, ren, sub):
        self.ren = ren
        self.sub = sub

    def visit_Name(self, n):
        if n.id in self.sub and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.sub[n.id])
        if n.id in self.ren:
            return ast.copy_location(ast.Name(self.ren[n.id], n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.ren:
            n.name = self.ren[n.name]
        return self.generic_visit(n)


def pure_ref(e):
    """a name, an attribute of one, a constant"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant)) or \
        isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


class Helper:
    def __init__(self, mod, owner, node):
        self.mod, self.owner, self.node = mod, owner, node
        self.body = strip(node.body)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        self.method = owner is not None and not self.static
        stores = names_in(self.body, (ast.Store, ast.Del))
        for n in ast.walk(node):
            if isinstance(n, ast.ExceptHandler) and n.name:
                stores.add(n.name)
        self.stores = stores
        # names bound by imports and inner functions, and names inner scopes use: these are not renamed
        self.bound = {(a.asname or a.name).split('.')[0] for n in ast.walk(node) if isinstance(n, (ast.Import, ast.ImportFrom))
                      for a in n.names}
        inner = [n for n in ast.walk(node) if isinstance(n, DEFS + (ast.ClassDef, ast.Lambda)) and n is not node]
        self.bound |= {n.name for n in inner if not isinstance(n, ast.Lambda)}
        self.fixed = self.bound | {x.id for n in inner for x in ast.walk(n) if isinstance(x, ast.Name)} | \
            {x.arg for n in inner for x in ast.walk(n) if isinstance(x, ast.arg)}
        self.attr_stores = any(isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del))
                               for s in self.body for n in ast.walk(s)) or \
            any(isinstance(n, ast.Call) for s in self.body for n in ast.walk(s))
        self.size = sum(isinstance(n, ast.stmt) for s in self.body for n in ast.walk(s))
        self.inlined = 0

    def usable(self):
        n = self.node
        if n.args.vararg or n.args.kwarg or not isinstance(n, ast.FunctionDef) or not self.body:
            return False
        if any(not (isinstance(d, ast.Name) and d.id == 'staticmethod' and self.owner is not None) for d in n.decorator_list):
            return False
        for d in self.defaults.values():
            if not isinstance(d, (ast.Constant, ast.UnaryOp)):
                return False
        for x in ast.walk(n):
            if x is n:
                continue
            if isinstance(x, (ast.ClassDef, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncFunctionDef)):
                return False
            if isinstance(x, ast.Name) and x.id in ('locals', 'globals', 'super', '__class__'):
                return False
        return True

    def bind(self, call):
        """parameter -> argument expression, or None"""
        b = {}
        ps = list(self.params)
        args = list(call.args)
        if any(isinstance(x, ast.Starred) for x in args) or any(k.arg is None for k in call.keywords):
            return None
        if self.method:
            args.insert(0, call.func.value)
        if len(args) > len(ps):
            return None
        for p, v in zip(ps, args):
            b[p] = v
        for k in call.keywords:
            if k.arg in b or k.arg not in ps + self.kwonly:
                return None
            b[k.arg] = k.value
        for p in ps + self.kwonly:
            if p not in b:
                if p not in self.defaults:
                    return None
                b[p] = self.defaults[p]
        return b


class Inliner:
    def __init__(self, trees, light=False):
        self.trees = trees         # {module key: tree}
        self.light = light
        self.n = 0

    # ---------------------------------------------------------------- which functions
    def helpers(self):
        refs, defs = {}, {}
        called = {id(n.func) for t in self.trees.values() for n in ast.walk(t) if isinstance(n, ast.Call)}
        cand = {}
        for key, t in self.trees.items():
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    refs.setdefault(n.id, []).append((key, n))
                elif isinstance(n, ast.Attribute):
                    refs.setdefault(n.attr, []).append((key, n))
                elif isinstance(n, DEFS):
                    defs.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.alias):
                    refs.setdefault(n.name.split('.')[-1], []).append((key, n))
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and private(n.value):
                    refs.setdefault(n.value, []).append((key, n))
            for o in t.body:
                if isinstance(o, ast.FunctionDef) and private(o.name):
                    cand.setdefault(o.name, []).append(Helper(key, None, o))
                elif isinstance(o, ast.ClassDef):
                    for m in o.body:
                        if isinstance(m, ast.FunctionDef) and private(m.name):
                            cand.setdefault(m.name, []).append(Helper(key, o, m))
        out = {}
        for name, hs in cand.items():
            # several definitions: only if they are in different modules/classes and each is called in its own
            for h in hs:
                if not h.usable():
                    continue
                calls = []
                ok = True
                if len(defs[name]) != len(hs):
                    continue
                for key, n in refs.get(name, []):
                    if h.owner is None:
                        if key != h.mod:
                            if len(hs) == 1:
                                ok = False
                            continue
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                            calls.append(n)
                        else:
                            ok = False
                    else:
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                            if self.inside(n, h.owner):
                                calls.append(n)
                            elif len(hs) == 1:
                                ok = False
                        else:
                            ok = False
                if ok and h.owner is not None and len(hs) > 1 and self.related(hs):
                    ok = False
                if any(id(n) not in called for n in calls):
                    ok = False
                if any(self.inside(n, h.node) for n in calls):
                    ok = False
                if ok and calls and (len(calls) == 1 or h.size <= 15 and not self.light):
                    h.calls = calls
                    out[id(h.node)] = h
        return out

    @staticmethod
    def inside(n, owner):
        return any(x is n for x in ast.walk(owner))

    @staticmethod
    def related(hs):
        names = {h.owner.name for h in hs if h.owner is not None}
        return any(isinstance(b, ast.Name) and b.id in names or isinstance(b, ast.Attribute) and b.attr in names
                   for h in hs if h.owner is not None for b in h.owner.bases) or \
            len(names) != len(hs)

    # ---------------------------------------------------------------- one pass
    def run(self):
        for _ in range(30):
            if not self.once() and not self.once(True):
                break

    def once(self, every=False):
        done = False
        hs = self.helpers()
        # innermost first: helpers that call no other helper
        names = {h.node.name for h in hs.values()}
        leaf = []
        for h in hs.values():
            used = {n.id for n in ast.walk(h.node) if isinstance(n, ast.Name)} | \
                   {n.attr for n in ast.walk(h.node) if isinstance(n, ast.Attribute)}
            if every or not (used & names - {h.node.name}):
                leaf.append(h)
        for h in leaf:
            left = 0
            for ref in h.calls:
                r = self.inline_ref(h, ref)
                if r:
                    done = True
                else:
                    left += 1
            if not left:
                owner = h.owner if h.owner is not None else self.trees[h.mod]
                owner.body[:] = [s for s in owner.body if s is not h.node] or [ast.copy_location(ast.Pass(), h.node)]
                done = True
        return done

    def inline_ref(self, h, ref):
        root = h.owner if h.owner is not None else self.trees[h.mod]
        # enclosing function, block and statement
        fns = [n for n in ast.walk(root) if isinstance(n, DEFS) and n is not h.node and any(x is ref for x in ast.walk(n))]
        if not fns:
            return False
        fn = fns[-1]
        if h.method:
            outer = fns[0]
            if not outer.args.args or not isinstance(ref.value, ast.Name) or ref.value.id != outer.args.args[0].arg:
                return False
            if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in outer.decorator_list):
                return False
        elif h.owner is not None and not (isinstance(ref.value, ast.Name) and ref.value.id in
                                          (h.owner.name, (fns[0].args.args[0].arg if fns[0].args.args else ''))):
            return False
        if len(fns) > 1 and fns[0] is not fn and any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
            return False
        for b in all_blocks(fn):
            for i, s in enumerate(b):
                if not any(x is ref for x in ast.walk(s)):
                    continue
                if any(any(x is ref for x in ast.walk(t)) for bb in blocks(s) for t in bb):
                    continue
                if any(any(x is ref for x in ast.walk(t)) for hd in (getattr(s, 'handlers', None) or []) for t in hd.body):
                    continue
                call = next((c for c in ast.walk(s) if isinstance(c, ast.Call) and c.func is ref), None)
                if call is None or isinstance(s, SCOPES):
                    return False
                try:
                    r = self.expand(h, fn, s, call)
                except NoForm:
                    return False
                if r is None:
                    return False
                b[i:i + 1] = r
                for x in r:
                    ast.fix_missing_locations(x)
                return True
        return False

    def conditional(self, s, call):
        """is the call evaluated only sometimes or several times in the statement"""
        if isinstance(s, ast.While):
            return True
        bad = []
        for n in ast.walk(s):
            if isinstance(n, (ast.Lambda,)):
                bad.append(n)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                first = n.generators[0].iter
                if not any(x is call for x in ast.walk(first)):
                    bad.append(n)
            elif isinstance(n, ast.IfExp):
                bad += [n.body, n.orelse]
            elif isinstance(n, ast.BoolOp):
                bad += n.values[1:]
        return any(x is call for b in bad for x in ast.walk(b))

    def expand(self, h, fn, s, call):
        b = h.bind(call)
        if b is None:
            return None
        whole = isinstance(s, (ast.Return, ast.Expr, ast.Assign)) and s.value is call
        if not whole and isinstance(s, ast.Assign) and len(s.targets) != 1:
            return None
        # names
        used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        ret_map = {}
        body = copy.deepcopy(h.body)
        tmp = None
        single = len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None
        if not whole and not single:
            if isinstance(s, (ast.With, ast.Try)) or self.conditional(s, call):
                return None
            # what is evaluated before the call must not be moved after it: allow names, attributes and constants only
            if not self.early(s, call):
                return None
        if single and not whole:
            e = body[0].value
            cond = self.conditional(s, call)
            pre = []
            sub, ren = {}, {}
            count = {}
            for n in ast.walk(e):
                if isinstance(n, ast.Name):
                    count[n.id] = count.get(n.id, 0) + 1
            inner = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for v in inner & used:
                ren[v] = self.fresh(v, used)
            for p, v in b.items():
                if pure_ref(v) or count.get(p, 0) <= 1 and not self.repeated(e, p):
                    sub[p] = v
                elif not cond and not isinstance(s, (ast.While, ast.With, ast.Try)) and self.early(s, call):
                    q = self.fresh(p, used)
                    ren[p] = q
                    used.add(q)
                    pre.append(ast.copy_location(ast.Assign([ast.Name(q, ast.Store())], v), call))
                else:
                    return None
            if h.fixed & (set(ren) | set(sub)):
                return None
            e = Subst(ren, sub).visit(e)
            self.replace(s, call, e)
            return pre + [s]
        # statement level
        target = None
        if whole and isinstance(s, ast.Assign) and len(s.targets) == 1:
            target = s.targets[0]
        ren, sub, pre = {}, {}, []
        free = used - ({n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set())
        # the returned local names take the names of the targets
        rets = [n.value for st in body for n in [st] + list(own(st)) if isinstance(n, ast.Return)]
        if target is not None and rets and all(ast.dump(r) == ast.dump(rets[0]) for r in rets if r is not None) and None not in rets:
            ts = target.elts if isinstance(target, ast.Tuple) else [target]
            rs = rets[0].elts if isinstance(rets[0], ast.Tuple) and isinstance(target, ast.Tuple) else [rets[0]]
            if len(ts) == len(rs) and all(isinstance(x, ast.Name) for x in ts + rs):
                argn = {n.id for v in b.values() for n in ast.walk(v) if isinstance(n, ast.Name)}
                tn, rn = [x.id for x in ts], [x.id for x in rs]
                hn = {n.id for st in body for n in ast.walk(st) if isinstance(n, ast.Name)}
                if len(set(tn)) == len(tn) and len(set(rn)) == len(rn) and all(
                        r in h.stores and r not in b and t not in argn and (t == r or t not in hn) for t, r in zip(tn, rn)):
                    ret_map = dict(zip(rn, tn))
        for r, t in ret_map.items():
            ren[r] = t
        hstores = h.stores
        taken = set(used) | set(ren.values())
        for v in sorted(hstores - set(b)):
            if v in ren:
                continue
            if v in used:
                ren[v] = self.fresh(v, taken)
                taken.add(ren[v])
        for p, v in b.items():
            if p not in hstores and (isinstance(v, (ast.Name, ast.Constant)) or pure_ref(v) and not h.attr_stores):
                if isinstance(v, ast.Name) and v.id in {ren.get(x, x) for x in hstores}:
                    raise NoForm()
                sub[p] = v
            elif whole and isinstance(s, ast.Return) and isinstance(v, ast.Name) and \
                    sum(isinstance(n, ast.Name) and n.id == v.id for n in ast.walk(call)) == 1 and \
                    v.id not in set(ren.values()) and v.id not in hstores - set(b) and not self.in_try(fn, s):
                ren[p] = v.id
            elif p not in hstores and not h.attr_stores and self.count(body, p) == 1 and len(body) == 1:
                sub[p] = v
            else:
                q = p if p not in taken else self.fresh(p, taken)
                taken.add(q)
                if q != p:
                    ren[p] = q
                if isinstance(v, ast.Name) and v.id == q:
                    continue
                pre.append(ast.copy_location(ast.Assign([ast.Name(q, ast.Store())], v), call))
        ren = {k: v for k, v in ren.items() if k != v}
        sub = {k: v for k, v in sub.items() if not (isinstance(v, ast.Name) and v.id == k)}
        if h.fixed & (set(ren) | set(sub)) or h.bound & used:
            raise NoForm()
        tr = Subst(ren, sub)
        body = [tr.visit(x) for x in body]
        if isinstance(s, ast.Return) and whole:
            if not ends(body):
                body.append(ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None), s)), s))
            return pre + body
        if whole and isinstance(s, ast.Expr):
            out = tail(body, lambda v, at: [] if v is None or isinstance(v, (ast.Name, ast.Constant)) else
                       [ast.copy_location(ast.Expr(v), at)])
            return (pre + out) or [ast.copy_location(ast.Pass(), s)]
        if whole:
            def make(v, at):
                v = v if v is not None else ast.copy_location(ast.Constant(None), s)
                if ret_map:
                    return []
                n = ast.copy_location(ast.Assign([copy.deepcopy(x) for x in s.targets], v), s)
                return [n]
            return pre + tail(body, make)
        tmp = self.fresh(h.node.name.strip('_') + '_value', taken)

        def make(v, at):
            v = v if v is not None else ast.copy_location(ast.Constant(None), s)
            return [ast.copy_location(ast.Assign([ast.Name(tmp, ast.Store())], v), at or s)]
        out = pre + tail(body, make)
        self.replace(s, call, ast.copy_location(ast.Name(tmp, ast.Load()), call))
        return out + [s]

    @staticmethod
    def in_try(fn, s):
        return any(isinstance(n, (ast.Try, ast.For, ast.While)) and any(x is s for x in ast.walk(n)) for n in ast.walk(fn))

    @staticmethod
    def count(body, p):
        return sum(isinstance(n, ast.Name) and n.id == p for s in body for n in ast.walk(s))

    @staticmethod
    def repeated(e, p):
        for n in ast.walk(e):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)) and \
                    any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n)):
                return True
        return False

    def early(self, s, call):
        """nothing with an effect is evaluated in s before the call"""
        head = {ast.If: 'test', ast.For: 'iter'}.get(type(s))
        for n in ast.walk(getattr(s, head) if head else s):
            if isinstance(n, (ast.Call, ast.NamedExpr)) and n is not call and not any(x is call for x in ast.walk(n)) \
                    and not any(x is n for x in ast.walk(call)):
                if (n.lineno, n.col_offset) < (call.lineno, call.col_offset):
                    return False
        return True

    def fresh(self, base, used):
        k = base
        while k in used:
            self.n += 1
            k = '%s_in%d' % (base, self.n)
        return k

    @staticmethod
    def replace(s, old, new):
        class R(ast.NodeTransformer):
            def visit(self, n):
                if n is old:
                    return new
                return super().visit(n)
        R().visit(s)


# ------------------------------------------------------------------------------------------- temporaries
SIMPLE = (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Load, ast.cmpop, ast.boolop, ast.unaryop,
          ast.expr_context)


def simple_condition(e):
    return isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and all(isinstance(n, SIMPLE) for n in ast.walk(e))


def temporaries(fn, light=False):
    """put single-use names back where they are used, when they are used in the statement that follows"""
    for _ in range(40):
        if not temp_pass(fn, light):
            break


def temp_pass(fn, light=False):
    stores, loads = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            (loads if isinstance(n.ctx, ast.Load) else stores).setdefault(n.id, []).append(n)
        elif isinstance(n, ast.arg):
            stores.setdefault(n.arg, []).append(n)
        elif isinstance(n, ast.alias):
            stores.setdefault((n.asname or n.name).split('.')[0], []).append(n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores.setdefault(n.name, []).append(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores.setdefault(x, []).extend([n, n])
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            loads.setdefault(n.target.id, []).append(n.target)
    changed = False
    for b in list(all_blocks(fn)):
        i = len(b) - 2
        while i >= 0:
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x = s.targets[0].id
                if len(stores.get(x, [])) == 1 and loads.get(x):
                    if light and effects(s.value) and not isinstance(b[i + 1], ast.If):
                        i -= 1
                        continue
                    if len(loads[x]) == 1 and usable_in(b[i + 1], loads[x][0], s.value):
                        Inliner.replace(b[i + 1], loads[x][0], s.value)
                        del b[i]
                        changed = True
                        i = min(i, len(b) - 1) - 1
                        continue
                    if simple_condition(s.value) and condition_ok(fn, b, i, x, s, loads[x], stores):
                        for l in loads[x]:
                            Inliner.replace(fn, l, copy.deepcopy(s.value))
                        del b[i]
                        return True
            i -= 1
        if changed:
            return True
    return changed


def usable_in(s, use, value):
    """the use is evaluated once, at the start of statement s (before anything with an effect)"""
    if isinstance(value, (ast.Lambda, ast.List, ast.Dict, ast.ListComp)) and not isinstance(s, (ast.Return, ast.Assign, ast.Expr)):
        return False
    if isinstance(s, ast.If):
        where = s.test
    elif isinstance(s, ast.For):
        where = s.iter
    elif isinstance(s, (ast.Return, ast.Expr, ast.Assign)):
        where = s
    elif isinstance(s, ast.AugAssign):
        where = s.value
        if not isinstance(s.target, ast.Name):
            return False
    else:
        return False
    if isinstance(s, ast.Assign) and any(x is use for t in s.targets for x in ast.walk(t)):
        # an index of the place that is assigned: evaluated after the value
        return not any(isinstance(n, ast.Call) for n in ast.walk(value)) and \
            not any(isinstance(n, ast.Call) for n in ast.walk(s.value))
    if not any(x is use for x in ast.walk(where)):
        return False
    for n in ast.walk(where):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if any(x is use for x in ast.walk(n)) and not any(x is use for x in ast.walk(n.generators[0].iter)):
                return False
        elif isinstance(n, ast.Lambda) and any(x is use for x in ast.walk(n)):
            return False
        elif isinstance(n, ast.IfExp) and any(x is use for y in (n.body, n.orelse) for x in ast.walk(y)) and effects(value):
            return False
        elif isinstance(n, ast.BoolOp) and any(x is use for y in n.values[1:] for x in ast.walk(y)) and effects(value):
            return False
    # calls evaluated before the use (in order of evaluation) would be moved after the value
    if effects(value):
        for n in ast.walk(where):
            if isinstance(n, ast.Call) and not any(x is use for x in ast.walk(n)) and before(where, n, use):
                return False
    else:
        # a value without calls: no call before it in the statement may change what it reads (attributes, elements)
        if any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(value)):
            for n in ast.walk(where):
                if isinstance(n, ast.Call) and not any(x is use for x in ast.walk(n)) and before(where, n, use) and \
                        not library_call(n):
                    return False
    return True


def library_call(n):
    f = n.func
    while isinstance(f, ast.Attribute):
        f = f.value
    return isinstance(f, ast.Name) and f.id in ('np', 'numpy', 'len', 'range', 'float', 'int', 'str', 'list')


def before(where, a, b):
    """a is visited before b in the order of the syntax tree"""
    order = {}

    def rec(n):
        order[id(n)] = len(order)
        for c in ast.iter_child_nodes(n):
            rec(c)
    rec(where)
    return order.get(id(a), 0) < order.get(id(b), 0)


def effects(e):
    return any(isinstance(n, (ast.Call, ast.NamedExpr)) and not (isinstance(n, ast.Call) and library_call(n)) for n in ast.walk(e))


def condition_ok(fn, b, i, x, s, loads, stores):
    """every use of the condition is in the statements that follow in its block and sees the same values"""
    inside = set()
    for t in b[i + 1:]:
        inside |= {id(n) for n in ast.walk(t)}
    if not all(id(l) in inside for l in loads):
        return False
    after = {id(n) for t in b[i + 1:] for n in ast.walk(t)}
    for n in ast.walk(s.value):
        if isinstance(n, ast.Name):
            if any(id(d) in after for d in stores.get(n.id, []) if isinstance(d, ast.AST)):
                return False
    for n in ast.walk(fn):
        if isinstance(n, (ast.While, ast.Lambda) + DEFS) and n is not fn and any(l is y for l in loads for y in ast.walk(n)) and \
                not any(y is s for y in ast.walk(n)):
            return False
    return True


def aliases(fn):
    """a name given to a parameter that is not used otherwise takes the place of the parameter"""
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    used = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            used.setdefault(n.id, []).append(n)
    for b in [fn.body]:
        for s in list(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, ast.Name) and s.value.id in params and len(used.get(s.value.id, [])) == 1:
                x, p = s.targets[0].id, s.value.id
                if x in params or any(isinstance(n, SCOPES) and n is not fn for n in ast.walk(fn)):
                    continue
                if any(n.lineno < s.lineno for n in used[x]):
                    continue
                for n in used[x]:
                    n.id = p
                b.remove(s)
                used[p] = used.pop(x)
    if not fn.body:
        fn.body.append(ast.copy_location(ast.Pass(), fn))


def normalise(trees, light=False):
    """light: only conditions and temporaries without calls (for the abstract interpreter, which follows calls and joins
    its states after each statement)"""
    if not light:
        Inliner(trees).run()
    for t in trees.values():
        for fn in [n for n in ast.walk(t) if isinstance(n, DEFS)]:
            temporaries(fn, light)
            aliases(fn)
        ast.fix_missing_locations(t)
