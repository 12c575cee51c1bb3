"""Abstract evaluation of formulas: functions are read as exact expressions (dpcheck.field) in their parameters.

Arrays over a grid are read element by element (one generic element), integrals over a grid are linear combinations of
integrands, everything not followed is an object known by the text that produced it.  Branches on values that are not
known are enumerated by re-reading the function once per decision.  Nothing is executed: the evaluator walks the syntax
tree and only the algebra of dpcheck.field is carried out.
"""
import ast
import string
from fractions import Fraction

from . import field as F


class Undecided(Exception):
    pass


class Dead(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


# accepted values (CODATA 2018) as expressions of independent symbols: h [J ps], k [J/K], N, e [J/eV], u [J/(amu A^2/ps^2)]
H, K, NA, QE, AMU = (F.var(x) for x in ('c_h', 'c_k', 'c_N', 'c_e', 'c_u'))
BASE = {'c_h': 6.62607015e-22, 'c_k': 1.380649e-23, 'c_N': 6.02214076e23, 'c_e': 1.602176634e-19, 'c_u': 1.66053906660e-23}
TWO = F.num(2)


def ten(n):
    return F.num(Fraction(10) ** n)


def table():
    t = []

    def add(name, value, rat):
        t.append((name, value, rat))
    h, k, n, e, u = (BASE[x] for x in ('c_h', 'c_k', 'c_N', 'c_e', 'c_u'))
    pi = 3.141592653589793
    add('Planck constant [J ps]', h, H)
    add('Planck constant [J s]', h * 1e-12, H * ten(-12))
    add('reduced Planck constant [J ps]', h / 2 / pi, H / (TWO * F.PI))
    add('reduced Planck constant [J s]', h / 2 / pi * 1e-12, H / (TWO * F.PI) * ten(-12))
    add('Planck constant [eV ps]', h / e, H / QE)
    add('Planck constant [eV s]', h / e * 1e-12, H / QE * ten(-12))
    add('Planck constant [meV ps]', h / e * 1e3, H / QE * ten(3))
    add('reduced Planck constant [eV ps]', h / e / 2 / pi, H / QE / (TWO * F.PI))
    add('reduced Planck constant [eV s]', h / e / 2 / pi * 1e-12, H / QE / (TWO * F.PI) * ten(-12))
    add('Boltzmann constant [J/K]', k, K)
    add('Boltzmann constant [eV/K]', k / e, K / QE)
    add('Boltzmann constant [amu A^2/(ps^2 K)]', k / u, K / AMU)
    add('gas constant [J/(K mol)]', k * n, K * NA)
    add('elementary charge [J/eV]', e, QE)
    add('Avogadro constant [1/mol]', n, NA)
    add('amu A^2/ps^2 [eV]', u / e, AMU / QE)
    add('amu A^2/ps^2 [J]', u, AMU)
    add('atomic mass unit [kg]', u * 1e-4, AMU * ten(-4))
    add('h/k [K/THz]', h / k, H / K)
    add('eV per molecule [kJ/mol]', n * e / 1000, NA * QE / ten(3))
    add('eV per molecule [J/mol]', n * e, NA * QE)
    add('h N [kJ/(mol THz)]', n * h / 1000, NA * H / ten(3))
    return t


CONSTANTS = table()
SNAP = 1e-4
EXTERNAL = {
    'numpy.pi': F.PI, 'math.pi': F.PI, 'scipy.pi': F.PI, 'scipy.constants.pi': F.PI, 'cmath.pi': F.PI,
    'scipy.constants.h': H * ten(-12), 'scipy.constants.Planck': H * ten(-12), 'scipy.constants.hbar': H * ten(-12) / (TWO * F.PI),
    'scipy.constants.k': K, 'scipy.constants.Boltzmann': K, 'scipy.constants.N_A': NA, 'scipy.constants.Avogadro': NA,
    'scipy.constants.e': QE, 'scipy.constants.elementary_charge': QE, 'scipy.constants.eV': QE,
    'scipy.constants.electron_volt': QE, 'scipy.constants.R': K * NA, 'scipy.constants.gas_constant': K * NA,
    'scipy.constants.u': AMU * ten(-4), 'scipy.constants.atomic_mass': AMU * ten(-4), 'scipy.constants.m_u': AMU * ten(-4),
    'scipy.constants.pico': ten(-12), 'scipy.constants.tera': ten(12), 'scipy.constants.kilo': ten(3),
    'scipy.constants.angstrom': ten(-10),
    'numpy.e': None,
}


def near(x, rel=SNAP):
    if x <= 0:
        return None
    for name, v, r in CONSTANTS:
        if abs(x / v - 1) <= rel:
            return name, v, r
    return None


def literal(node, src=None):
    """the exact value of a number as it is written; the accepted constant when it is one"""
    v = node.value
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise Undecided('not a real number')
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        raise Undecided('not a number')
    if isinstance(v, int):
        return F.num(v)
    q = Fraction(repr(v))
    digits = len(repr(v).replace('.', '').split('e')[0].strip('0'))
    if digits >= 4:
        hit = near(v)
        if hit:
            return hit[2]
    return F.num(q)


def evalf(r):
    """value of a constant expression (constants and pi only), or None"""
    def pv(p):
        s = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                if a[0] != 'v':
                    return None
                if a[1] == 'pi':
                    b = 3.141592653589793
                elif a[1] in BASE:
                    b = BASE[a[1]]
                elif a[1].startswith('prime'):
                    b = float(a[1][5:])
                else:
                    return None
                x *= b ** float(e)
            s += x
        return s
    n, d = pv(r.n), pv(r.d)
    if n is None or d in (None, 0):
        return None
    return n / d


# ---------------------------------------------------------------- values
class Num:
    def __init__(self, rat, excl=frozenset(), guard=False, arr=False, tag=None):
        self.rat, self.excl, self.guard, self.arr, self.tag = rat, frozenset(excl), guard, arr, tag


class Int:
    """sum of integrals: {(grid text, exclusions, guarded): integrand}"""
    def __init__(self, parts, tag=None):
        self.parts, self.tag = parts, tag

    def scale(self, r):
        return Int({k: v * r for k, v in self.parts.items()}, self.tag)

    def add(self, o, sign=1):
        p = dict(self.parts)
        for k, v in o.parts.items():
            v = v if sign > 0 else -v
            p[k] = p[k] + v if k in p else v
        return Int(p, self.tag if self.tag is not None else o.tag)

    def name(self):
        return 'integral' + repr(sorted((k[0], sorted(k[1]), v.key()) for k, v in self.parts.items()))


class Obj:
    def __init__(self, name, cls=None, root=None):
        self.name, self.cls, self.child = name, cls, {}
        self.root = root


class Tup:
    def __init__(self, items, kind='tuple'):
        self.items, self.kind = items, kind


class Dic:
    def __init__(self, items):
        self.items = items


class Const:
    def __init__(self, v):
        self.v = v


class Fun:
    def __init__(self, node, env, mod, cls=None, selfv=None, func=None):
        self.node, self.env, self.mod, self.cls, self.selfv, self.func = node, env, mod, cls, selfv, func


class Ext:
    def __init__(self, dotted):
        self.dotted = dotted


class Cond:
    """a truth value; when decided for a generic point: the set of grid points where it is otherwise"""
    def __init__(self, value, excl=frozenset(), name=None):
        self.value, self.excl, self.name = value, frozenset(excl), name


class Idx:
    def __init__(self, grid):
        self.grid = grid


class Appended:
    def __init__(self):
        self.values = []


PASS = {'array', 'asarray', 'asfarray', 'ascontiguousarray', 'copy', 'float64', 'float', 'real', 'squeeze', 'ravel', 'list',
        'tuple', 'atleast_1d', 'asanyarray', 'fromiter', 'longdouble', 'deepcopy', 'astype', 'real_if_close'}
INTEGRALS = {'simps', 'simpson', 'trapz', 'trapezoid', 'romb'}


class Run:
    """one reading of a function with a fixed choice for every undecided branch"""

    def __init__(self, prog, decisions, relevant, positive=(), events=None, hooks=None):
        self.prog, self.dec, self.relevant = prog, decisions, relevant
        self.trace = []
        self.pos = set(positive)
        self.events = events if events is not None else []
        self.depth = 0
        self.steps = 0
        self.cur = []          # exclusions met while reading one element
        self.hooks = hooks or {}

    # -- names ---------------------------------------------------------------
    def nm(self, v):
        if isinstance(v, Num):
            return F.show(v.rat, 4000) + ('' if not v.excl else '\\' + ','.join(sorted(v.excl)))
        if isinstance(v, Int):
            return v.name()
        if isinstance(v, Obj):
            if v.child:
                return v.name + '{' + ','.join('%s:%s' % (k, self.nm(x)) for k, x in sorted(v.child.items())
                                               if not (isinstance(x, Obj) and x.name.startswith(v.name))) + '}'
            return v.name
        if isinstance(v, Tup):
            return '(' + ','.join(self.nm(x) for x in v.items) + ')'
        if isinstance(v, Dic):
            return '{' + ','.join('%s:%s' % (k, self.nm(x)) for k, x in sorted(v.items.items(), key=repr)) + '}'
        if isinstance(v, Const):
            return repr(v.v)
        if isinstance(v, Ext):
            return v.dotted
        if isinstance(v, Fun):
            return 'function %s' % getattr(v.node, 'name', 'lambda')
        if isinstance(v, Cond):
            return v.name or str(v.value)
        if isinstance(v, Idx):
            return 'index of ' + v.grid
        return '?'

    def num(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            return Num(F.num(Fraction(repr(v.v)) if isinstance(v.v, float) else v.v))
        if isinstance(v, Const) and isinstance(v.v, bool):
            return Num(F.num(int(v.v)))
        if isinstance(v, Obj):
            return Num(F.var(v.name))
        if isinstance(v, Int):
            return Num(F.var(v.name()), tag=v.tag)
        if isinstance(v, Tup) and v.items and all(isinstance(x, (Num, Const, Obj)) for x in v.items):
            raise Undecided('list of numbers')
        raise Undecided('not a number: ' + self.nm(v)[:60])

    # -- functions -----------------------------------------------------------
    def call(self, fn, args, kwargs, node=None):
        if self.depth > 14:
            raise Undecided('deep call')
        n = fn.node
        a = n.args
        env = dict(fn.env) if fn.env else {}
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if fn.selfv is not None:
            vals = [fn.selfv] + vals
        bound = {}
        if len(vals) > len(names):
            if a.vararg is None:
                raise Undecided('too many arguments')
            bound[a.vararg.arg] = Tup(vals[len(names):])
            vals = vals[:len(names)]
        for k, v in zip(names, vals):
            bound[k] = v
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            elif a.kwarg is None:
                raise Undecided('unexpected argument ' + k)
        frame = Frame(self, env, fn.mod, fn.cls)
        pos = a.posonlyargs + a.args
        for p, d in list(zip(reversed(pos), reversed(a.defaults))) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if p.arg not in bound:
                bound[p.arg] = frame.ev(d)
        for p in pos + a.kwonlyargs:
            if p.arg not in bound:
                raise Undecided('missing argument ' + p.arg)
        if a.vararg is not None:
            bound.setdefault(a.vararg.arg, Tup([]))
        frame.env.update(bound)
        self.depth += 1
        try:
            if isinstance(n, ast.Lambda):
                return frame.ev(n.body)
            try:
                frame.block(n.body)
            except Return as r:
                return r.v
            return Const(None)
        finally:
            self.depth -= 1

    def decide(self, name):
        for k, v in self.trace:
            if k == name:
                return v
        i = len(self.trace)
        v = self.dec[i] if i < len(self.dec) else True
        self.trace.append((name, v))
        if len(self.trace) > 18:
            raise Undecided('too many branches')
        return v


class Frame:
    def __init__(self, run, env, mod, cls=None):
        self.run, self.env, self.mod, self.cls = run, env, mod, cls
        self.loop_grid = []

    # -- statements ----------------------------------------------------------
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        R = self.run
        R.steps += 1
        if R.steps > 40000:
            raise Undecided('too long')
        if isinstance(s, ast.Return):
            raise Return(self.ev(s.value) if s.value is not None else Const(None))
        if isinstance(s, ast.Expr):
            self.quiet(s.value)
            return
        if isinstance(s, ast.Assign):
            v = self.quiet(s.value)
            for t in s.targets:
                self.bind(t, v)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.quiet(s.value))
            return
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s.target)
            for x in ast.walk(load):
                x.lineno = getattr(s, 'lineno', 0)
            name = s.target.id if isinstance(s.target, ast.Name) else None
            if self.loop_grid and name is not None and name in self.loop_grid[-1][1]:
                self.bind(s.target, Obj('running total %s at line %d' % (name, s.lineno)))
                return
            try:
                old = self.ev(load)
                if isinstance(old, Tup) and isinstance(s.op, ast.Add):
                    o = self.ev(s.value)
                    if isinstance(o, Tup):
                        old.items.extend(o.items)
                        return
                v = self.binop(s.op, old, self.ev(s.value))
            except (Undecided, F.Unknown):
                v = Obj('%s (line %d)' % (ast.unparse(s.target), s.lineno))
            self.bind(s.target, v)
            return
        if isinstance(s, ast.If):
            t = self.truth(s.test)
            self.block(s.body if t else s.orelse)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.env[s.name] = Fun(s, self.env, self.mod, self.cls)
            return
        if isinstance(s, ast.For):
            self.loop(s)
            return
        if isinstance(s, ast.While):
            self.kill(s)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.quiet(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(s.body)
            return
        if isinstance(s, ast.Try):
            self.block(s.body)
            self.block(s.orelse)
            self.block(s.finalbody)
            return
        if isinstance(s, ast.Raise):
            raise Dead
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            t = {}
            self.mod.add_import(s, t)
            for k, imp in t.items():
                r = R.prog.resolve_import(imp)
                self.env[k] = self.resolved(r, k)
            return
        if isinstance(s, ast.Continue):
            raise Skip
        if isinstance(s, ast.Break):
            raise Undecided('break')
        if isinstance(s, (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal)):
            return
        if isinstance(s, ast.Delete):
            return
        self.kill(s)

    def kill(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.env[n.id] = Obj('%s (line %d)' % (n.id, n.lineno))
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in self.env and b.id != 'self':
                    self.env[b.id] = Obj('%s (line %d)' % (b.id, n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ('append', 'extend', 'insert', 'update', 'sort', 'pop'):
                if n.func.value.id in self.env:
                    self.env[n.func.value.id] = Obj('%s (line %d)' % (n.func.value.id, n.lineno))

    def loop(self, s):
        g = self.generator(s.iter)
        if g is None:
            it = self.quiet(s.iter)
            if isinstance(it, Tup) and len(it.items) <= 12:
                for x in it.items:
                    self.bind(s.target, x)
                    try:
                        self.block(s.body)
                    except Skip:
                        pass
                return
            self.kill(s)
            return
        excl, elem = g
        assigned = {n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        before = set(self.env)
        lists = {k: v for k, v in self.env.items() if isinstance(v, Tup) and v.kind == 'list' and not v.items}
        self.loop_grid.append((excl, assigned & before, lists))
        save, self.run.cur = self.run.cur, []
        self.bind(s.target, elem)
        stop = False
        try:
            self.block(s.body)
        except Skip:
            stop = True
        got = frozenset(self.run.cur)
        self.run.cur = save
        self.loop_grid.pop()
        if stop:
            raise Undecided('loop skips every element')
        for k, v in lists.items():
            if self.env.get(k) is v and v.items:
                if len(v.items) != 1:
                    self.env[k] = Obj('%s (line %d)' % (k, s.lineno))
                    continue
                try:
                    x = self.run.num(v.items[0])
                    self.env[k] = Num(x.rat, x.excl | excl | got, x.guard, True)
                except Undecided:
                    self.env[k] = Obj('%s (line %d)' % (k, s.lineno))
        for k, v in list(self.env.items()):
            if isinstance(v, FilledArr):
                self.env[k] = Num(v.value.rat, v.value.excl | excl | got, v.value.guard, True)

    def generator(self, it):
        """(exclusions, element) when the iterable runs over a grid"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            f = it.func.id
            if f == 'enumerate' and it.args:
                v = self.grid(it.args[0])
                if v is not None:
                    return v.excl, Tup([Idx(F.show(v.rat)), v])
            if f == 'zip':
                vs = [self.grid(a) for a in it.args]
                if vs and all(v is not None for v in vs):
                    return frozenset().union(*[v.excl for v in vs]), Tup(list(vs))
            if f in ('range', 'xrange') and len(it.args) == 1:
                a = it.args[0]
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len':
                    v = self.grid(a.args[0])
                    if v is not None:
                        return v.excl, Idx(F.show(v.rat))
                if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Attribute) and a.value.attr == 'shape':
                    v = self.grid(a.value.value)
                    if v is not None:
                        return v.excl, Idx(F.show(v.rat))
            return None
        v = self.grid(it)
        if v is not None:
            return v.excl, v
        return None

    def grid(self, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('range', 'zip', 'enumerate'):
            return None
        try:
            v = self.ev(node)
        except (Undecided, F.Unknown):
            return None
        if isinstance(v, Num) and (v.arr or any(a[0] == 'v' for a in v.rat.atoms())):
            for a in v.rat.atoms():
                if a[0] == 'v':
                    self.run.pos.add(a[1])
            return Num(v.rat, v.excl, v.guard)
        if isinstance(v, Obj) and v.cls is None:
            self.run.pos.add(v.name)
            return Num(F.var(v.name))
        return None

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for a, b in zip(t.elts, v.items):
                    self.bind(a, b)
            else:
                for i, a in enumerate(t.elts):
                    if isinstance(a, ast.Starred):
                        a = a.value
                    self.bind(a, self.item(v, Const(i)))
        elif isinstance(t, ast.Subscript):
            self.store(t, v)
        elif isinstance(t, ast.Attribute):
            try:
                b = self.ev(t.value)
            except (Undecided, F.Unknown):
                return
            if isinstance(b, Obj):
                b.child['.' + t.attr] = v

    def store(self, t, v):
        try:
            b = self.ev(t.value)
        except (Undecided, F.Unknown):
            return
        if isinstance(b, Obj) and not isinstance(t.slice, ast.Slice):
            try:
                k = self.ev(t.slice)
            except (Undecided, F.Unknown):
                k = Obj('?')
            if isinstance(k, Idx) and isinstance(t.value, ast.Name):
                try:
                    self.env[t.value.id] = FilledArr(self.run.num(v))
                except Undecided:
                    self.env[t.value.id] = Obj('%s (line %d)' % (t.value.id, t.lineno))
                return
            if isinstance(k, (Cond,)):
                if k.value is False and isinstance(t.value, ast.Name):
                    n = self.run.num(b)
                    self.env[t.value.id] = Num(n.rat, n.excl | k.excl, n.guard, True)
                return
            b.child['[%s]' % self.run.nm(k)] = v
            return
        if isinstance(b, Dic):
            k = self.quiet(t.slice)
            if isinstance(k, Const):
                b.items[k.v] = v
            return
        if isinstance(b, Tup) and not isinstance(t.slice, ast.Slice):
            k = self.quiet(t.slice)
            n = const_int(k)
            if n is not None and -len(b.items) <= n < len(b.items):
                b.items[n] = v
                return
            if isinstance(k, Idx) and isinstance(t.value, ast.Name) and isinstance(v, (Num, Obj)):
                self.env[t.value.id] = FilledArr(self.run.num(v))
            return
        if isinstance(b, (Num, FilledArr)) and isinstance(t.value, ast.Name):
            name = t.value.id
            if isinstance(t.slice, ast.Slice):
                self.env[name] = Obj('%s (line %d)' % (name, t.lineno))
                return
            try:
                k = self.ev(t.slice)
            except (Undecided, F.Unknown):
                self.env[name] = Obj('%s (line %d)' % (name, t.lineno))
                return
            n = const_int(k)
            if n is not None:
                b = b.value if isinstance(b, FilledArr) else b
                self.env[name] = Num(b.rat, b.excl | {'point %d' % n}, b.guard, True)
            elif isinstance(k, Idx):
                try:
                    self.env[name] = FilledArr(self.run.num(v))
                except Undecided:
                    self.env[name] = Obj('%s (line %d)' % (name, t.lineno))
            elif isinstance(k, Cond) and k.value is False:
                self.env[name] = Num(b.rat, b.excl | k.excl, b.guard, True)
            else:
                self.env[name] = Obj('%s (line %d)' % (name, t.lineno))

    # -- expressions -----------------------------------------------------------
    def quiet(self, e):
        try:
            return self.ev(e)
        except (Undecided, F.Unknown):
            return Obj('%s (line %d)' % (ast.unparse(e)[:60], getattr(e, 'lineno', 0)))

    def truth(self, e):
        try:
            v = self.ev(e)
        except (Undecided, F.Unknown):
            return self.run.decide('%s (line %d)' % (ast.unparse(e), getattr(e, 'lineno', 0)))
        if isinstance(v, Cond):
            if v.value is not None:
                self.run.cur.extend(v.excl)
                return v.value
            return self.run.decide(v.name)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Num):
            x = v.rat.number()
            if x is not None:
                return x != 0
        return self.run.decide(self.run.nm(v))

    def resolved(self, r, name):
        if r is None:
            return Obj(name)
        if r[0] == 'func':
            return Fun(r[1].node, None, r[1].mod, None, None, r[1])
        if r[0] in ('module', 'ext'):
            return Ext(r[1])
        if r[0] == 'value':
            vs = r[2]
            if len(vs) == 1:
                fr = Frame(self.run, {}, r[1])
                if self.run.depth > 14:
                    raise Undecided('deep')
                self.run.depth += 1
                try:
                    return fr.ev(vs[0])
                except (Undecided, F.Unknown):
                    return Obj(r[1].name + '.' + name)
                finally:
                    self.run.depth -= 1
            return Obj(r[1].name + '.' + name)
        return Obj(name)

    def ev(self, e):
        R = self.run
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
                return Num(literal(e))
            return Const(e.value)
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.mod.resolve(e.id)
            if r is None:
                return Obj(e.id)
            return self.resolved(r, e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value)
                    if not isinstance(v, Tup):
                        raise Undecided('starred')
                    out += v.items
                else:
                    out.append(self.quiet(x))
            return Tup(out, 'list' if isinstance(e, ast.List) else 'tuple')
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if not isinstance(k, ast.Constant):
                    raise Undecided('dictionary')
                d[k.value] = self.quiet(v)
            return Dic(d)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                v = self.ev(e.operand)
                if isinstance(v, Cond):
                    return Cond(None if v.value is None else not v.value, v.excl, None if v.name is None else negname(v.name)) \
                        if v.value is not None else Cond(not R.decide(v.name))
                if isinstance(v, Const):
                    return Cond(not v.v)
                return Cond(not R.decide(R.nm(v)))
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Invert) and isinstance(v, Cond) and v.value is not None:
                return Cond(not v.value, v.excl)
            if isinstance(e.op, ast.USub):
                if isinstance(v, Int):
                    return v.scale(F.num(-1))
                v = R.num(v)
                return Num(-v.rat, v.excl, v.guard, v.arr, v.tag)
            if isinstance(e.op, ast.UAdd):
                return v
            raise Undecided('operator')
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mod):
                l = self.ev(e.left)
                if isinstance(l, Const) and isinstance(l.v, str):
                    self.quiet(e.right)
                    return Const(l.v)
            return self.binop(e.op, self.ev(e.left), self.ev(e.right))
        if isinstance(e, ast.Compare):
            return self.compare(e)
        if isinstance(e, ast.BoolOp):
            val = None
            for x in e.values:
                t = self.truth(x)
                if isinstance(e.op, ast.And) and not t:
                    return Cond(False)
                if isinstance(e.op, ast.Or) and t:
                    return Cond(True)
                val = t
            return Cond(val)
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test)
            return self.ev(e.body if t else e.orelse)
        if isinstance(e, ast.Lambda):
            return Fun(e, self.env, self.mod, self.cls)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(e)
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            return self.subscript(e)
        if isinstance(e, ast.Call):
            return self.callnode(e)
        if isinstance(e, ast.JoinedStr):
            tmpl, args = '', []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    tmpl += str(x.value).replace('{', '{{').replace('}', '}}')
                else:
                    tmpl += '{%d}' % len(args)
                    args.append(self.quiet(x.value))
            R.events.append(('format', tmpl, args, {}, e, list(R.trace)))
            return Const(tmpl)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, ast.Starred):
            raise Undecided('starred')
        raise Undecided('expression')

    def comp(self, e):
        if len(e.generators) != 1:
            raise Undecided('nested comprehension')
        g = e.generators[0]
        gen = self.generator(g.iter)
        if gen is None:
            it = self.ev(g.iter)
            if isinstance(it, Tup) and len(it.items) <= 12 and not g.ifs:
                out = []
                for x in it.items:
                    fr = self.sub()
                    fr.bind(g.target, x)
                    out.append(fr.quiet(e.elt))
                return Tup(out, 'list')
            raise Undecided('comprehension')
        excl, elem = gen
        fr = self.sub()
        fr.bind(g.target, elem)
        save, self.run.cur = self.run.cur, []
        try:
            for c in g.ifs:
                if not fr.truth(c):
                    raise Undecided('filter')
            v = self.run.num(fr.ev(e.elt))
            return Num(v.rat, v.excl | excl | frozenset(self.run.cur), v.guard, True)
        finally:
            self.run.cur = save

    def sub(self):
        return Frame(self.run, dict(self.env), self.mod, self.cls)

    def attr(self, e):
        R = self.run
        v = self.ev(e.value)
        if isinstance(v, Ext):
            full = v.dotted + '.' + e.attr
            if full in EXTERNAL and EXTERNAL[full] is not None:
                return Num(EXTERNAL[full])
            if v.dotted in R.prog.modules or any(m.startswith(v.dotted + '.') for m in R.prog.modules):
                r = R.prog.module_attr(v.dotted, e.attr)
                return self.resolved(r, e.attr)
            return Ext(full)
        if isinstance(v, Obj):
            k = '.' + e.attr
            if k in v.child:
                return v.child[k]
            if v.cls is not None:
                g = v.cls.lookup(R.prog, 'getters', e.attr)
                m = v.cls.lookup(R.prog, 'methods', e.attr)
                if m is not None:
                    static = m.is_static()
                    return Fun(m.node, None, m.mod, m.cls, None if static else v, m)
            o = Obj(v.name + k)
            if ('.' + e.attr) in R.hooks:
                o = R.hooks['.' + e.attr](o)
            v.child[k] = o
            return o
        if isinstance(v, (Num,)) and e.attr in ('T', 'real', 'values'):
            return v
        if isinstance(v, Num):
            return Bound(v, e.attr)
        if isinstance(v, (Const, Tup, Dic)):
            return Bound(v, e.attr)
        raise Undecided('attribute')

    def item(self, v, k):
        R = self.run
        if isinstance(v, Tup):
            n = const_int(k)
            if n is not None and -len(v.items) <= n < len(v.items):
                return v.items[n]
            raise Undecided('index')
        if isinstance(v, Dic):
            if isinstance(k, Const) and k.v in v.items:
                return v.items[k.v]
            raise Undecided('key')
        if isinstance(k, Idx):
            n = R.num(v)
            return Num(n.rat, n.excl, n.guard)
        if isinstance(k, Cond) and k.value is True:
            n = R.num(v)
            return Num(n.rat, n.excl | k.excl, n.guard, True)
        if isinstance(v, Obj):
            key = '[%s]' % R.nm(k)
            if key not in v.child:
                v.child[key] = Obj(v.name + key, root=v.root)
            return v.child[key]
        if isinstance(v, Num):
            raise Undecided('element of an array')
        raise Undecided('index')

    def subscript(self, e):
        v = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo = const_int(self.ev(s.lower)) if s.lower is not None else 0
            hi = const_int(self.ev(s.upper)) if s.upper is not None else None
            if isinstance(v, Tup) and s.step is None and lo is not None and (s.upper is None or hi is not None):
                return Tup(v.items[lo:hi], v.kind)
            if s.step is None and lo == 0 and s.upper is None:
                return v
            n = self.run.num(v)
            if s.step is None and lo is not None and lo >= 0 and (s.upper is None or (hi is not None and hi < 0)):
                ex = set(n.excl) | {'point %d' % i for i in range(lo)}
                if hi is not None:
                    ex |= {'point %d' % i for i in range(hi, 0)}
                return Num(n.rat, ex, n.guard, True)
            raise Undecided('slice')
        if isinstance(e.slice, ast.Tuple):
            if isinstance(v, Obj):
                parts = []
                for x in e.slice.elts:
                    parts.append(':' if isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None
                                 else ast.unparse(x) if isinstance(x, ast.Slice) else self.run.nm(self.quiet(x)))
                # a[1, :] is a[1]
                while len(parts) > 1 and parts[-1] == ':':
                    parts.pop()
                key = '[%s]' % ','.join(parts)
                if key not in v.child:
                    v.child[key] = Obj(v.name + key, root=v.root)
                return v.child[key]
            raise Undecided('index')
        k = self.ev(e.slice)
        return self.item(v, k)

    def compare(self, e):
        R = self.run
        if len(e.ops) == 2 and isinstance(e.ops[0], (ast.Lt, ast.LtE)) and isinstance(e.ops[1], (ast.Lt, ast.LtE)):
            a = ast.Compare(left=e.left, ops=[e.ops[0]], comparators=[e.comparators[0]])
            b = ast.Compare(left=e.comparators[0], ops=[e.ops[1]], comparators=[e.comparators[1]])
            ca, cb = self.compare(a), self.compare(b)
            if ca.value is not None and cb.value is not None:
                return Cond(ca.value and cb.value, ca.excl | cb.excl)
            return Cond(None, name=ast.unparse(e))
        if len(e.ops) != 1:
            raise Undecided('comparison')
        op = e.ops[0]
        a, b = self.ev(e.left), self.ev(e.comparators[0])
        if isinstance(op, (ast.Is, ast.IsNot)) or (isinstance(op, (ast.Eq, ast.NotEq)) and
                                                   (isinstance(a, Const) or isinstance(b, Const))):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(a, Const) and isinstance(b, Const):
                return Cond((a.v == b.v) != neg)
            if (isinstance(a, Const) and a.v is None and not isinstance(b, Obj)) or \
                    (isinstance(b, Const) and b.v is None and not isinstance(a, Obj)):
                return Cond(neg)
            t = R.decide('%s is %s' % (R.nm(a), R.nm(b)))
            return Cond(t != neg)
        if isinstance(op, (ast.In, ast.NotIn)):
            t = R.decide('%s in %s' % (R.nm(a), R.nm(b)))
            return Cond(t != isinstance(op, ast.NotIn))
        if isinstance(a, Idx) or isinstance(b, Idx):
            return self.index_compare(a, op, b)
        x, y = R.num(a), R.num(b)
        d = x.rat - y.rat
        n = d.number()
        if n is not None:
            return Cond({ast.Lt: n < 0, ast.LtE: n <= 0, ast.Gt: n > 0, ast.GtE: n >= 0, ast.Eq: n == 0,
                         ast.NotEq: n != 0}[type(op)])
        yn, xn = y.rat.number(), x.rat.number()
        if xn is not None and yn is None:
            flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            x, yn, op = y, xn, flip[type(op)]()
        if yn is not None and self.positive(x.rat):
            t = F.show(x.rat, 60)
            pt = '%s==0' % t if yn == 0 else '%s<=%s' % (t, float(yn))
            if isinstance(op, (ast.Gt, ast.NotEq)) and (yn == 0 or isinstance(op, ast.Gt)):
                return Cond(True, {pt} if yn >= 0 else ())
            if isinstance(op, ast.GtE):
                return Cond(True, {pt} if yn > 0 else ())
            if isinstance(op, ast.NotEq):
                return Cond(True, {'%s==%s' % (t, float(yn))} if yn > 0 else ())
            if isinstance(op, ast.Eq):
                return Cond(False, {'%s==%s' % (t, float(yn))} if yn > 0 else {pt} if yn == 0 else ())
            if isinstance(op, (ast.Lt, ast.LtE)):
                if yn == 0:
                    return Cond(False, {pt} if isinstance(op, ast.LtE) else ())
                return Cond(False, {pt} if yn > 0 else ())
        return Cond(None, name='%s %s 0' % (F.show(d, 200), type(op).__name__))

    def positive(self, r):
        s = r.n.single()
        if s is None or r.d.single() is None or s[1] <= 0:
            return False
        return all((a[0] == 'v' and (a[1] in self.run.pos or a[1] in BASE or a[1] == 'pi')) or a[0] == 'e' for a, e in s[0])

    def index_compare(self, a, op, b):
        if isinstance(b, Idx):
            flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            a, b, op = b, a, flip[type(op)]()
        n = const_int(b)
        if n is None:
            raise Undecided('index comparison')
        pts = lambda k: {'point %d' % i for i in range(k)}
        if isinstance(op, ast.Eq):
            return Cond(False, {'point %d' % n})
        if isinstance(op, ast.NotEq):
            return Cond(True, {'point %d' % n})
        if isinstance(op, ast.Gt):
            return Cond(True, pts(n + 1))
        if isinstance(op, ast.GtE):
            return Cond(True, pts(n))
        if isinstance(op, ast.Lt):
            return Cond(False, pts(n))
        return Cond(False, pts(n + 1))

    def binop(self, op, a, b):
        R = self.run
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items, a.kind)
        if isinstance(op, ast.Add) and isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
            return Const(a.v + b.v)
        if isinstance(op, ast.Mult) and isinstance(a, Tup) and a.kind == 'list' and len(a.items) == 1:
            return Obj('filled list')
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, Cond) and isinstance(b, Cond) and \
                a.value is not None and b.value is not None:
            v = (a.value and b.value) if isinstance(op, ast.BitAnd) else (a.value or b.value)
            return Cond(v, a.excl | b.excl)
        if isinstance(a, Int) or isinstance(b, Int):
            if isinstance(a, Int) and isinstance(b, Int):
                if isinstance(op, ast.Add):
                    return a.add(b)
                if isinstance(op, ast.Sub):
                    return a.add(b, -1)
                x = R.num(b)
                if isinstance(op, ast.Div):
                    return a.scale(F.num(1) / x.rat)
                if isinstance(op, ast.Mult):
                    return a.scale(x.rat)
                raise Undecided('integrals')
            if isinstance(a, Int):
                x = R.num(b)
                if isinstance(op, ast.Mult):
                    return a.scale(x.rat)
                if isinstance(op, ast.Div):
                    return a.scale(F.num(1) / x.rat)
                if isinstance(op, (ast.Add, ast.Sub)) and x.rat.zero():
                    return a
            elif isinstance(op, ast.Mult):
                return b.scale(R.num(a).rat)
            elif isinstance(op, ast.Add) and R.num(a).rat.zero():
                return b
            elif isinstance(op, ast.Sub) and R.num(a).rat.zero():
                return b.scale(F.num(-1))
            # an integral used as a number
        x, y = R.num(a), R.num(b)
        if isinstance(op, ast.Add):
            r = x.rat + y.rat
        elif isinstance(op, ast.Sub):
            r = x.rat - y.rat
        elif isinstance(op, ast.Mult):
            r = x.rat * y.rat
        elif isinstance(op, ast.Div):
            r = x.rat / y.rat
        elif isinstance(op, ast.Pow):
            r = F.power(x.rat, y.rat)
        else:
            raise Undecided('operator')
        xc, yc = x.rat.number() is not None, y.rat.number() is not None
        guard = (x.guard or (not x.arr and not depends(x.rat))) and (y.guard or (not y.arr and not depends(y.rat)))
        if x.guard and yc or y.guard and xc:
            guard = True
        return Num(r, x.excl | y.excl, guard and (x.guard or y.guard), x.arr or y.arr, x.tag if x.tag is not None else y.tag)

    def fn(self, f, v):
        return Num(f(v.rat), v.excl, False, v.arr)

    def callnode(self, e):
        R = self.run
        f = e.func
        # constructors of text
        if isinstance(f, ast.Attribute) and f.attr == 'format':
            base = self.quiet(f.value)
            if isinstance(base, Const) and isinstance(base.v, str):
                args = []
                ok = True
                for a in e.args:
                    if isinstance(a, ast.Starred):
                        v = self.quiet(a.value)
                        if isinstance(v, Tup):
                            args += v.items
                        else:
                            ok = False
                    else:
                        args.append(self.quiet(a))
                kw = {k.arg: self.quiet(k.value) for k in e.keywords if k.arg}
                if ok:
                    R.events.append(('format', base.v, args, kw, e, list(R.trace)))
                return Const(base.v)
        if isinstance(f, ast.Name) and f.id in ('exit', 'quit') or (isinstance(f, ast.Attribute) and f.attr in ('exit', '_exit')
                                                                    and isinstance(f.value, ast.Name) and f.value.id in ('sys', 'os')):
            raise Dead
        if isinstance(f, ast.Attribute) and f.attr in ('append',) and len(e.args) == 1:
            b = self.quiet(f.value)
            if isinstance(b, Tup):
                b.items.append(self.quiet(e.args[0]))
                return Const(None)
        fv = self.ev(f) if not (isinstance(f, ast.Name) and f.id not in self.env and self.mod.resolve(f.id) is None) else Ext(
            'builtins.' + f.id)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.quiet(a.value)
                if isinstance(v, Tup):
                    args += v.items
                else:
                    args.append(Obj('*' + R.nm(v)))
            else:
                args.append(self.quiet(a))
        kw = {k.arg: self.quiet(k.value) for k in e.keywords if k.arg}
        return self.apply(fv, args, kw, e)

    def apply(self, fv, args, kw, e):
        R = self.run
        if isinstance(fv, Fun):
            inline = fv.func is None or R.relevant(fv.func)
            if inline:
                try:
                    mark = len(R.events)
                    v = R.call(fv, args, kw, e)
                    if fv.func is not None and fv.func.cls is None:
                        v = tagged(v, fv.func.name)
                    return v
                except (Undecided, F.Unknown, Skip) as x:
                    if fv.func is None:
                        raise Undecided(str(x))
            nm = getattr(fv.node, 'name', 'lambda')
            if fv.selfv is not None:
                nm = fv.selfv.name + '.' + nm
            o = Obj('%s(%s)' % (nm, ', '.join([R.nm(a) for a in args] + ['%s=%s' % (k, R.nm(v)) for k, v in sorted(kw.items())])),
                    root=fv.func.qual if fv.func is not None else None)
            if nm.split('.')[-1] in R.hooks:
                o = R.hooks[nm.split('.')[-1]](o)
            return o
        if isinstance(fv, Bound):
            return self.method(fv, args, kw, e)
        if isinstance(fv, Ext):
            return self.external(fv.dotted, args, kw, e)
        if isinstance(fv, Obj):
            last = fv.name.split('.')[-1]
            if last in INTEGRALS:
                return self.external('scipy.' + last, args, kw, e)
            if last in PASS and len(args) >= 0 and '.' in fv.name and last in ('copy', 'astype', 'squeeze', 'ravel'):
                return self.ev(e.func.value)
            o = Obj('%s(%s)' % (fv.name, ', '.join([R.nm(a) for a in args] + ['%s=%s' % (k, R.nm(v)) for k, v in sorted(kw.items())])))
            if last in R.hooks:
                o = R.hooks[last](o)
            return o
        raise Undecided('call')

    def method(self, b, args, kw, e):
        if isinstance(b.v, Num):
            if b.name in ('copy', 'astype', 'squeeze', 'ravel', 'flatten', 'reshape', 'tolist', 'item'):
                return b.v
            if b.name == 'sum':
                raise Undecided('sum')
        if isinstance(b.v, Dic) and b.name == 'get' and args and isinstance(args[0], Const):
            if args[0].v in b.v.items:
                return b.v.items[args[0].v]
        if isinstance(b.v, Tup) and b.name in ('extend',) and args and isinstance(args[0], Tup):
            b.v.items.extend(args[0].items)
            return Const(None)
        raise Undecided('method ' + b.name)

    def external(self, dotted, args, kw, e):
        R = self.run
        last = dotted.split('.')[-1]
        if dotted.startswith('builtins.') and last in ('print',):
            return Const(None)
        if last == 'nan_to_num' and args:
            v = R.num(args[0])
            return Num(v.rat, v.excl, True, True, v.tag)
        if last in PASS and len(args) >= 1:
            if isinstance(args[0], Tup):
                return Tup(list(args[0].items), 'list')
            return args[0]
        if last in INTEGRALS and args:
            y = args[0]
            x = kw.get('x', args[1] if len(args) > 1 else None)
            if x is None:
                raise Undecided('integral without grid')
            y, x = R.num(y), R.num(x)
            ex = y.excl | x.excl
            return Int({(F.show(x.rat, 4000), ex, y.guard): y.rat}, tag=y.tag)
        if last in ('exp', 'log', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'sqrt', 'square', 'reciprocal', 'negative') and len(args) == 1:
            v = R.num(args[0])
            fs = {'exp': F.exp, 'log': F.log, 'sinh': F.sinh, 'cosh': F.cosh, 'tanh': F.tanh,
                  'expm1': lambda r: F.exp(r) - F.num(1), 'log1p': lambda r: F.log(r + F.num(1)),
                  'sqrt': lambda r: F.power(r, F.num(Fraction(1, 2))), 'square': lambda r: r * r,
                  'reciprocal': lambda r: F.num(1) / r, 'negative': lambda r: -r}
            return self.fn(fs[last], v)
        if last == 'log2' or last == 'log10':
            v = R.num(args[0])
            return self.fn(lambda r: F.log(r) / F.lognum(Fraction(int(last[3:]))), v)
        if last in ('power', 'pow', 'float_power') and len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1])
        if last in ('multiply', 'divide', 'true_divide', 'add', 'subtract') and len(args) == 2:
            return self.binop({'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div, 'add': ast.Add,
                               'subtract': ast.Sub}[last](), args[0], args[1])
        if last == 'where' and len(args) == 3 and isinstance(args[0], Cond) and args[0].value is not None:
            v = R.num(args[1] if args[0].value else args[2])
            return Num(v.rat, v.excl | args[0].excl, v.guard, True)
        if last in ('zeros_like', 'empty_like', 'zeros', 'empty') and args:
            return Obj('new array (line %d)' % getattr(e, 'lineno', 0))
        if last in ('ones_like', 'ones'):
            return Num(F.num(1), arr=True)
        if last == 'abs' or last == 'absolute':
            v = R.num(args[0])
            if self.positive(v.rat):
                return v
            return Num(F.var('abs(%s)' % R.nm(v)), v.excl, False, v.arr)
        if last in ('isclose',) and args:
            try:
                x, y = R.num(args[0]), R.num(args[1])
            except (Undecided, IndexError):
                raise Undecided('isclose')
            if y.rat.zero() and self.positive(x.rat):
                return Cond(False, {'%s==0' % F.show(x.rat, 60)})
        if last in ('sum', 'cumsum') and not (args and isinstance(args[0], Obj)):
            raise Undecided('sum')
        o = Obj('%s(%s)' % (dotted, ', '.join([R.nm(a) for a in args] + ['%s=%s' % (k, R.nm(v)) for k, v in sorted(kw.items())])))
        if last in R.hooks:
            o = R.hooks[last](o)
        return o


class Bound:
    def __init__(self, v, name):
        self.v, self.name = v, name


class FilledArr(Num):
    def __init__(self, v):
        Num.__init__(self, v.rat, v.excl, v.guard, True)
        self.value = v


class Skip(Exception):
    pass


def negname(n):
    return 'not ' + n


def depends(r):
    return bool(r.atoms())


def tagged(v, tag):
    if isinstance(v, Int):
        return Int(v.parts, tag)
    if isinstance(v, Num):
        return Num(v.rat, v.excl, v.guard, v.arr, tag)
    return v


def const_int(k):
    if isinstance(k, Num):
        n = k.rat.number()
        if n is not None and n.denominator == 1:
            return int(n)
    if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
        return k.v
    return None


def fields(template):
    """[(text of the line, position in the arguments)] of a format template"""
    out = []
    auto = 0
    line = ''
    cur = []
    try:
        parts = list(string.Formatter().parse(template))
    except ValueError:
        return []
    for lit, name, spec, conv in parts:
        segs = lit.split('\n')
        for i, s in enumerate(segs):
            if i:
                out += [(line, x) for x in cur]
                line, cur = '', []
            line += s
        if name is not None:
            key = name.split('.')[0].split('[')[0]
            if key == '':
                key = auto
                auto += 1
            elif key.isdigit():
                key = int(key)
            if name.split('.')[0] != name or '[' in name:
                key = None
            cur.append(key)
            line += '{}'
    out += [(line, x) for x in cur]
    return out


def readings(prog, fn, args, kwargs, relevant, positive=(), hooks=None, limit=128, partial=False):
    """every reading of the function: list of (decisions, value or None, events)"""
    out = []
    todo = [[]]
    seen = set()
    while todo:
        dec = todo.pop()
        if len(out) >= limit:
            break
        run = Run(prog, dec, relevant, positive, hooks=hooks)
        a = args() if callable(args) else args
        kw = kwargs() if callable(kwargs) else kwargs
        val = None
        try:
            val = run.call(fn, a, kw)
        except Dead:
            val = None
        except (Undecided, F.Unknown, Skip):
            if not partial:
                raise
        tr = tuple(run.trace)
        for i in range(len(dec), len(tr)):
            if tr[i][1] is True:
                alt = [v for _, v in tr[:i]] + [False]
                if tuple(alt) not in seen:
                    seen.add(tuple(alt))
                    todo.append(alt)
        out.append((tr, val, run.events))
    return out
