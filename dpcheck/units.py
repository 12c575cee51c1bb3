"""Inference of physical units by abstract interpretation with unification.

A value is a unit: exponents of base units and of unit variables.  Everything that is not known is a fresh variable, so
only definite contradictions (two known, different units that are added, compared, passed where the other is declared)
are reported.  Numbers are pure numbers in products and adapt to the other operand in sums; powers of ten of at least a
thousand in a product may be conversions, so the result is not known.  Nothing is executed.
"""
import ast
import re
import string
from fractions import Fraction

from . import formula as fm

BASES = ('ps', 'A', 'amu', 'K', 'eV', 'J', 'mol', 's', 'kg', 'kJ')
ONE = Fraction(1)


class U:
    __slots__ = ('d', 'v', 'cyc')

    def __init__(self, d=None, v=None, cyc=None):
        self.d, self.v, self.cyc = d or {}, v or {}, cyc


def unit(text, cyc=None):
    """'amu^1/2 A ps^-1'"""
    d = {}
    for w in text.split():
        b, _, e = w.partition('^')
        d[b] = d.get(b, 0) + Fraction(e or 1)
    return U({k: x for k, x in d.items() if x}, None, cyc)


PURE = unit('', 0)
PS, THZ, KEL, EV, SPEC = unit('ps', 0), unit('ps^-1', 1), unit('K', 0), unit('eV', 0), unit('eV ps', 0)
VEL, MVEL, ANG, AMU = unit('A ps^-1'), unit('amu^1/2 A ps^-1'), unit('A'), unit('amu')

CONST_UNITS = {
    'Planck constant [J ps]': 'J ps', 'Planck constant [J s]': 'J s', 'reduced Planck constant [J ps]': 'J ps',
    'reduced Planck constant [J s]': 'J s', 'Planck constant [eV ps]': 'eV ps', 'Planck constant [eV s]': 'eV s',
    'reduced Planck constant [eV ps]': 'eV ps', 'reduced Planck constant [eV s]': 'eV s',
    'Boltzmann constant [J/K]': 'J K^-1', 'Boltzmann constant [eV/K]': 'eV K^-1',
    'Boltzmann constant [amu A^2/(ps^2 K)]': 'amu A^2 ps^-2 K^-1', 'gas constant [J/(K mol)]': 'J K^-1 mol^-1',
    'elementary charge [J/eV]': 'J eV^-1', 'Avogadro constant [1/mol]': 'mol^-1',
    'amu A^2/ps^2 [eV]': 'eV amu^-1 A^-2 ps^2', 'amu A^2/ps^2 [J]': 'J amu^-1 A^-2 ps^2',
    'h/k [K/THz]': 'K ps',
}

ATTRS = {'velocity': VEL, 'trajectory': ANG, 'frequency_range': THZ, 'spectrum_resolution': THZ, 'temperature': KEL}
METHODS = {'get_time_step_average': PS, 'get_time': PS, 'get_frequency_range': THZ, 'get_masses': AMU,
           'get_velocity': VEL, 'get_velocity_mass_average': MVEL, 'get_positions': ANG, 'get_cell': ANG, 'get_supercell': ANG,
           'get_primitive_cell': ANG, 'get_vc': MVEL, 'get_vq': MVEL, 'get_power_spectrum_phonon': SPEC,
           'get_power_spectrum_wave_vector': SPEC, 'get_power_spectrum_full': SPEC, 'get_temperature': KEL,
           'get_trajectory': ANG, 'get_relative_trajectory': ANG, 'get_frequencies': THZ, 'get_max_frequency': None}
# documented units of the parameters of public functions: function name -> {parameter: unit}
PARAMS = {
    'generate_test_trajectory': {'total_time': PS, 'time_step': PS, 'temperature': KEL, 'minimum_frequency': THZ},
    'generate_lammps_trajectory': {'total_time': PS, 'time_step': PS, 'relaxation_time': PS, 'temperature': KEL},
    'read_vasp_trajectory': {'time_step': PS}, 'read_lammps_trajectory': {'time_step': PS}, 'read_VASP_XDATCAR': {'time_step': PS},
    'phonon_fitting_analysis': {'original': SPEC, 'ps_frequencies': THZ, 'harmonic_frequencies': THZ,
                                'thermal_expansion_shift': THZ},
    'get_dos': {'temp': KEL, 'frequency': THZ, 'power_spectrum': SPEC},
    'get_total_energy': {'temperature': KEL, 'frequency': THZ}, 'get_free_energy': {'temperature': KEL, 'frequency': THZ},
    'get_entropy': {'temperature': KEL, 'frequency': THZ}, 'get_cv': {'temperature': KEL, 'frequency': THZ},
    'get_free_energy_correction_shift': {'temperature': KEL, 'frequency': THZ, 'shift': THZ},
    'get_free_energy_correction_dos': {'temperature': KEL, 'frequency': THZ},
    'set_frequency_limits': {'limits': THZ}, 'set_temperature': {'temperature': KEL},
    'define_resolution': {'resolution': THZ}, 'set_spectra_resolution': {'resolution': THZ},
}
# constructor and function arguments with a unit: name -> {position or keyword: unit}
SINKS = {
    'Dynamics': {'time': PS, 'velocity': VEL, 'trajectory': ANG},
    'set_time': {0: PS, 'time': PS},
    'correlation_par': {0: THZ, 1: None, 2: PS, 'frequency': THZ, 'time_step': PS},
    'mem': {0: THZ, 1: None, 2: PS, 'frequency': THZ, 'time_step': PS},
    'set_temperature': {0: KEL},
}
for _n, _p in PARAMS.items():
    if _n.startswith(('get_', 'phonon_', 'set_')):
        SINKS.setdefault(_n, dict(_p))

# printed after a number
LABELS = [(r'\bThz\b', THZ), (r'\beV\s*\*\s*ps\b', SPEC), (r'\bpicoseconds?\b|\bps\b', PS), (r'\bK(?:elvin)?\b', KEL),
          (r'\beV\b', EV), (r'u\^\(?1/2\)?\s*\*?\s*angstroms?\s*/\s*ps\b', MVEL),
          (r'\bangstroms?\s*/\s*ps\b', VEL)]

SAME = {'abs', 'absolute', 'fabs', 'array', 'asarray', 'real', 'imag', 'conj', 'conjugate', 'average', 'mean', 'sum', 'max', 'min', 'std',
        'nan_to_num', 'copy', 'sort', 'cumsum', 'ravel', 'squeeze', 'reshape', 'transpose', 'float', 'float64', 'median', 'amax',
        'amin', 'ascontiguousarray', 'list', 'tuple', 'sorted', 'norm', 'around', 'round', 'diff', 'ptp', 'flatten', 'tolist',
        'astype', 'item', 'asnumpy', 'atleast_1d', 'reversed', 'nanmean', 'nansum', 'fft', 'ifft', 'rfft', 'real_if_close',
        'roll', 'repeat', 'tile', 'trace', 'diag', 'flip', 'asanyarray', 'cuda_fft', 'swapaxes', 'floor', 'ceil', 'rint', 'int',
        'broadcast_to', 'expand_dims', 'deepcopy', 'set', 'percentile', 'stack', 'take', 'lpad', 'pad'}
PRODUCT = {'dot', 'outer', 'matmul', 'multiply', 'correlate', 'inner', 'convolve', 'cross', 'kron', 'vdot'}
PUREF = {'exp', 'log', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'log10', 'log2', 'exp2', 'coth'}
CIRC = {'sin', 'cos', 'tan', 'cexp', 'sinc'}
COUNT = {'argmax', 'argmin', 'argsort', 'len', 'searchsorted', 'nonzero', 'count_nonzero', 'cpu_count', 'range', 'xrange'}


class Clash(Exception):
    pass


class System:
    """substitution of unit variables"""

    def __init__(self):
        self.sub = {}
        self.n = 0

    def fresh(self):
        self.n += 1
        return U(None, {self.n: ONE})

    def norm(self, u):
        if not any(v in self.sub for v in u.v):
            return u
        d, v = dict(u.d), {}
        for k, e in u.v.items():
            if k in self.sub:
                s = self.norm(self.sub[k])
                for b, x in s.d.items():
                    d[b] = d.get(b, 0) + x * e
                for b, x in s.v.items():
                    v[b] = v.get(b, 0) + x * e
            else:
                v[k] = v.get(k, 0) + e
        return U({a: b for a, b in d.items() if b}, {a: b for a, b in v.items() if b}, u.cyc)

    def mul(self, a, b, s=1):
        a, b = self.norm(a), self.norm(b)
        d, v = dict(a.d), dict(a.v)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + s * e
        for k, e in b.v.items():
            v[k] = v.get(k, 0) + s * e
        cyc = None if a.cyc is None or b.cyc is None else a.cyc + s * b.cyc
        return U({k: e for k, e in d.items() if e}, {k: e for k, e in v.items() if e}, cyc)

    def pow(self, a, n):
        a = self.norm(a)
        return U({k: e * n for k, e in a.d.items()}, {k: e * n for k, e in a.v.items()}, None if a.cyc is None else a.cyc * n)

    def unify(self, a, b):
        """False when the two are definitely different"""
        x = self.mul(a, b, -1)
        if not x.v:
            return not x.d
        k = sorted(x.v)[0]
        e = x.v[k]
        self.sub[k] = U({b2: -c / e for b2, c in x.d.items()}, {b2: -c / e for b2, c in x.v.items() if b2 != k})
        return True

    def known(self, a):
        a = self.norm(a)
        return not a.v

    def show(self, a):
        a = self.norm(a)
        if not a.d and not a.v:
            return 'a pure number'
        t = [k if e == 1 else '%s^%s' % (k, e) for k, e in sorted(a.d.items())]
        if a.v:
            t.append('?')
        return ' '.join(t)


class Lst:
    """a list that grows: unit of its elements"""
    def __init__(self, elem=None):
        self.elem = elem


class Tup:
    def __init__(self, items):
        self.items = items


class Fn:
    def __init__(self, func=None, node=None, env=None, mod=None, cls=None, selfv=None):
        self.func, self.node, self.env, self.mod, self.cls, self.selfv = func, node, env, mod, cls, selfv


class Ext:
    def __init__(self, dotted):
        self.dotted = dotted


class Self:
    def __init__(self, cls):
        self.cls = cls


class Str:
    def __init__(self, text):
        self.text = text


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.sys = System()
        self.problems = []       # (rule, function, node, text)
        self.decided = {}        # rule -> set of constructs
        self.stack = []

    def fresh(self):
        return self.sys.fresh()

    def ok(self, rule, fr, node):
        self.decided.setdefault(rule, set()).add('%s: %s' % (fr.name, cut(node)))

    def same(self, a, b, fr, node, rule, text):
        a, b = self.num(a), self.num(b)
        ka, kb = self.sys.known(a), self.sys.known(b)
        if self.sys.unify(a, b):
            if ka and kb:
                self.ok(rule, fr, node)
            return True
        self.problems.append((rule, fr, node, text.format(self.sys.show(a), self.sys.show(b))))
        return False

    def num(self, v):
        if isinstance(v, U):
            return v
        if isinstance(v, Lst):
            if v.elem is None:
                v.elem = self.fresh()
            return v.elem
        if isinstance(v, Tup) and v.items:
            us = [self.num(x) for x in v.items if not isinstance(x, (Str, Fn, Ext, Self))]
            if us and len(us) == len(v.items):
                u0 = self.sys.norm(us[0])
                if all(same_u(u0, self.sys.norm(u)) for u in us[1:]):
                    return us[0]
        return self.fresh()

    def stored(self, cls, attr):
        """unit of an attribute that a getter with a documented unit returns"""
        t = self.__dict__.setdefault('attrs', {})
        if cls not in t:
            d = t[cls] = {}
            for c in [cls]:
                for name, f in list(c.methods.items()) + list(c.getters.items()):
                    u = METHODS.get(name) if name in c.methods else ATTRS.get(name)
                    if u is not None:
                        rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
                        for r in rets:
                            if isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == 'self':
                                d[r.attr] = u
        return t[cls].get(attr)

    # ---- functions
    def function(self, func, args=None, selfv=None, kwargs=None, env=None, node=None, mod=None, cls=None):
        """unit of the result, or None"""
        n = node or func.node
        if n in self.stack or len(self.stack) > 5:
            return None
        fr = Frame(self, dict(env or {}), mod or func.mod, cls if func is None else func.cls,
                   func.qual if func is not None else (self.frame_name() + '.' + getattr(n, 'name', 'lambda')))
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args or [])
        if selfv is not None:
            vals = [selfv] + vals
        seeds = PARAMS.get(getattr(n, 'name', None), {}) if args is None else {}
        for k, v in zip(names, vals):
            fr.env[k] = v
        for k, v in (kwargs or {}).items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                fr.env[k] = v
        bound = set(names[:len(vals)]) | set(kwargs or ())
        if a.vararg:
            fr.env[a.vararg.arg] = self.fresh()
        if a.kwarg:
            fr.env[a.kwarg.arg] = self.fresh()
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in bound:
                if k in seeds:
                    fr.env[k] = seeds[k]
                elif k == 'self' and func is not None and func.cls is not None:
                    fr.env[k] = Self(func.cls)
                else:
                    fr.env[k] = self.fresh()
        self.stack.append(n)
        self.names.append(fr.name)
        try:
            if isinstance(n, ast.Lambda):
                return fr.ev(n.body)
            fr.block(n.body)
        finally:
            self.stack.pop()
            self.names.pop()
        rets = [r for r in fr.rets if r is not None]
        if not rets:
            return None
        if len(rets) == 1:
            return rets[0]
        r0 = self.sys.norm(self.num(rets[0]))
        if all(same_u(r0, self.sys.norm(self.num(r))) for r in rets[1:]):
            return rets[0]
        return None

    names = []

    def frame_name(self):
        return self.names[-1] if self.names else ''


def same_u(a, b):
    return a.d == b.d and a.v == b.v


def cut(node):
    t = node if isinstance(node, str) else re.sub(r'\s+', ' ', ast.unparse(node))
    return t if len(t) < 90 else t[:87] + '...'


def pow10(v):
    if v == 0 or isinstance(v, bool):
        return False
    s = '%.15e' % abs(v)
    m, _, e = s.partition('e')
    return float(m) == 1.0 and abs(int(e)) >= 3


class Frame:
    def __init__(self, an, env, mod, cls, name):
        self.an, self.env, self.mod, self.cls, self.name = an, env, mod, cls, name
        self.rets = []
        self.dead = False

    # ---- statements
    def block(self, body):
        for s in body:
            if self.dead:
                break
            self.stmt(s)

    def stmt(self, s):
        A = self.an
        if isinstance(s, ast.Return):
            self.rets.append(self.ev(s.value) if s.value is not None else None)
            self.dead = True
        elif isinstance(s, (ast.Continue, ast.Break, ast.Raise)):
            self.dead = True
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            load = ast.parse(ast.unparse(s.target), mode='eval').body
            old = self.ev(load)
            r = self.binop(s.op, old, v, s, s.value)
            self.bind(s.target, r, s)
        elif isinstance(s, ast.If):
            if isinstance(s.test, ast.Constant) and not s.test.value:
                self.block(s.orelse)
                return
            self.ev(s.test)
            self.branch([s.body, s.orelse])
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            self.bind(s.target, self.element(it, s.iter), s)
            self.branch([s.body, []])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.branch([s.body, []])
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branch([s.body] + [h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, (ast.FunctionDef,)):
            self.env[s.name] = Fn(node=s, env=self.env, mod=self.mod, cls=self.cls)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            t = {}
            self.mod.add_import(s, t)
            for k, imp in t.items():
                self.env[k] = self.resolved(A.prog.resolve_import(imp))

    def branch(self, bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.dead = False
            keep = dict(self.an.sys.sub)     # what one branch finds out does not hold in the other
            self.block(b)
            if not self.dead:
                outs.append({k: self.settle(v) for k, v in self.env.items()})
            self.rets = [self.settle(v) for v in self.rets]
            self.an.sys.sub = keep
        self.dead = not outs
        if not outs:
            self.env = start
            return
        env = {}
        for k in set().union(*outs):
            vs = [o[k] for o in outs if k in o]
            v = vs[0]
            for w in vs[1:]:
                v = self.join(v, w)
            env[k] = v
        self.env = env

    def settle(self, v):
        if isinstance(v, U) and not isinstance(v, Num) and any(k in self.an.sys.sub for k in v.v):
            return self.an.sys.norm(v)
        return v

    def join(self, a, b):
        if a is b:
            return a
        A = self.an
        if isinstance(a, U) and isinstance(b, U):
            x, y = A.sys.norm(a), A.sys.norm(b)
            if same_u(x, y):
                return x if x.cyc == y.cyc else U(x.d, x.v, None)
            return A.fresh()
        if isinstance(a, (Fn, Ext, Self)) and type(a) is type(b):
            return a
        return A.fresh()

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for a, b in zip(t.elts, v.items):
                    self.bind(a, b, s)
            else:
                for a in t.elts:
                    self.bind(a.value if isinstance(a, ast.Starred) else a, self.an.fresh(), s)
        elif isinstance(t, ast.Attribute):
            self.store(t, v, s)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = t.value
            if isinstance(b, ast.Attribute):
                self.store(b, v, s)
            if isinstance(b, ast.Name) and isinstance(self.env.get(b.id), (Tup,)):
                self.env[b.id] = self.an.fresh()
            elif isinstance(b, ast.Name) and isinstance(self.env.get(b.id), U) and isinstance(v, U):
                # an element replaced: the zero (or any mark) put in is not constrained
                x, y = self.an.sys.norm(self.env[b.id]), self.an.sys.norm(v)
                if not same_u(x, y):
                    if x.v and not x.d and len(x.v) == 1 and y.d:
                        self.an.sys.unify(x, y)
                    elif not (y.v and not y.d):
                        self.env[b.id] = self.an.fresh()

    def store(self, t, v, s):
        o = self.env.get(t.value.id) if isinstance(t.value, ast.Name) else None
        if not isinstance(o, Self) or not isinstance(v, (U, Lst)) or isinstance(v, Num):
            return
        u = self.an.stored(o.cls, t.attr)
        if u is not None:
            x = self.an.sys.norm(self.an.num(v))
            if not x.d and x.v:
                return       # not known
            self.an.same(x, u, self, s, 'result', 'what the getter of %s.%s gives is in {0} instead of {1}' % (o.cls.name, t.attr))

    # ---- expressions
    def element(self, v, node=None):
        if isinstance(v, Tup):
            if v.items:
                x = v.items[0]
                for y in v.items[1:]:
                    x = self.join(x, y)
                return x
            return self.an.fresh()
        if isinstance(v, Lst):
            return self.an.num(v)
        if isinstance(v, U):
            u = self.an.sys.norm(v)
            return v if u.d or not u.v else self.an.fresh()
        return self.an.fresh()

    def resolved(self, r):
        if r is None:
            return self.an.fresh()
        if r[0] == 'func':
            return Fn(func=r[1], mod=r[1].mod)
        if r[0] in ('module', 'ext'):
            return Ext(r[1])
        if r[0] == 'class':
            return Ext('class ' + r[1].node.name)
        if r[0] == 'value' and len(r[2]) == 1:
            if len(self.an.stack) > 5:
                return self.an.fresh()
            fr = Frame(self.an, {}, r[1], None, r[1].name)
            key = id(r[2][0])
            if key in self.an.__dict__.setdefault('busy', set()):
                return self.an.fresh()
            self.an.busy.add(key)
            try:
                return fr.ev(r[2][0], const=True)
            finally:
                self.an.busy.discard(key)
        return self.an.fresh()

    def ev(self, e, const=False):
        A = self.an
        if isinstance(e, ast.Constant):
            v = e.value
            if isinstance(v, str):
                return Str(v)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if isinstance(v, float):
                    digits = len(repr(v).replace('.', '').split('e')[0].strip('0'))
                    hit = fm.near(v) if digits >= 4 else None
                    if hit and hit[0] in CONST_UNITS:
                        return unit(CONST_UNITS[hit[0]], 0)
                if pow10(v):
                    return Num(None, 0)
                return Num(v, 0)
            if isinstance(v, complex):
                return Num(v, 0)
            return A.fresh()
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.mod.resolve(e.id)
            if r is None:
                return Ext('builtins.' + e.id)
            return self.resolved(r)
        if isinstance(e, (ast.Tuple, ast.List)):
            items = [self.ev(x) for x in e.elts]
            if isinstance(e, ast.List) and not items:
                return Lst()
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return A.fresh()
            return Tup(items)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            return PURE if isinstance(e.op, ast.Not) else (A.num(v) if not isinstance(v, Num) else v)
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, ast.Mod) and isinstance(l, Str):
                self.percent(l.text, r, e)
                return l
            return self.binop(e.op, l, r, e, e.right)
        if isinstance(e, ast.Compare):
            vs = [self.ev(x) for x in [e.left] + e.comparators]
            for i, op in enumerate(e.ops):
                a, b = vs[i], vs[i + 1]
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and plain(a) and plain(b) \
                        and not isinstance(a, Num) and not isinstance(b, Num):
                    A.same(a, b, self, e, 'sum', 'compares {0} with {1}')
            return U({}, {}, 0)
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x) for x in e.values]
            v = vs[0]
            for w in vs[1:]:
                v = self.join(v, w)
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.Lambda):
            return Fn(node=e, env=self.env, mod=self.mod, cls=self.cls)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            save = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.bind(g.target, self.element(it), e)
                for c in g.ifs:
                    self.ev(c)
            v = self.ev(e.elt)
            self.env = save
            if isinstance(v, Num):
                return A.fresh()
            return Lst(v) if isinstance(v, U) else (Lst(A.num(v)) if isinstance(v, Lst) else A.fresh())
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            return self.subscript(e)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.JoinedStr):
            tmpl, args = '', []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    tmpl += str(x.value).replace('{', '{{').replace('}', '}}')
                else:
                    tmpl += '{}'
                    args.append(self.ev(x.value))
            self.labels(tmpl, args, {}, e)
            return Str(tmpl)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v, e)
            return v
        if isinstance(e, ast.Dict):
            for v in e.values:
                self.ev(v)
            return A.fresh()
        if isinstance(e, ast.Starred):
            self.ev(e.value)
            return A.fresh()
        return A.fresh()

    def attr(self, e):
        A = self.an
        v = self.ev(e.value)
        if isinstance(v, Ext):
            full = v.dotted + '.' + e.attr
            if full in ('numpy.pi', 'math.pi', 'scipy.pi', 'scipy.constants.pi', 'np.pi'):
                return U({}, {}, -1)
            if v.dotted in A.prog.modules or any(m.startswith(v.dotted + '.') for m in A.prog.modules):
                return self.resolved(A.prog.module_attr(v.dotted, e.attr))
            return Ext(full)
        if e.attr in ('shape', 'size', 'ndim'):
            return PURE
        if e.attr in ATTRS:
            return ATTRS[e.attr]
        if isinstance(v, Self):
            m = v.cls.lookup(A.prog, 'methods', e.attr)
            if m is not None:
                return Fn(func=m, mod=m.mod, cls=m.cls, selfv=None if m.is_static() else v)
            return A.fresh()
        if isinstance(v, (U, Lst, Tup)) and e.attr in ('T', 'real', 'imag', 'values', 'flat'):
            return A.num(v)
        return A.fresh()

    def subscript(self, e):
        v = self.ev(e.value)
        A = self.an

        def index(s):
            if isinstance(s, ast.Slice):
                for x in (s.lower, s.upper, s.step):
                    if x is not None:
                        self.count(x, self.ev(x), e)
            elif isinstance(s, ast.Tuple):
                for x in s.elts:
                    index(x)
            elif not isinstance(s, ast.Constant):
                self.ev(s)
        index(e.slice)
        if isinstance(v, Tup):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v.items) <= e.slice.value < len(v.items):
                return v.items[e.slice.value]
            if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.operand, ast.Constant) and \
                    isinstance(e.slice.operand.value, int) and e.slice.operand.value <= len(v.items):
                return v.items[-e.slice.operand.value]
            return self.element(v)
        if isinstance(v, Lst):
            return A.num(v)
        if isinstance(v, U):
            u = A.sys.norm(v)
            return v if u.d or not u.v else A.fresh()    # what is not known may hold anything
        return A.fresh()

    def count(self, node, v, where):
        """a number of elements must be a pure number"""
        if isinstance(v, Num) or not isinstance(v, U):
            return
        u = self.an.sys.norm(v)
        if u.d and not u.v:
            self.an.problems.append(('count', self, where, 'a number of elements is computed in %s' % self.an.sys.show(u)))
        elif not u.v:
            self.an.ok('count', self, where)

    def binop(self, op, a, b, node, right):
        A = self.an
        if isinstance(a, (Str, Fn, Ext, Self)) or isinstance(b, (Str, Fn, Ext, Self)):
            return A.fresh()
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)):
                return A.fresh()
            na, nb = isinstance(a, Num), isinstance(b, Num)
            if na and nb:
                return Num(None, 0)
            if na or nb:
                o = A.num(b if na else a)
                o = A.sys.norm(o)
                return U(o.d, o.v, None)
            x, y = A.num(a), A.num(b)
            if not A.same(x, y, self, node, 'sum', ('adds' if isinstance(op, ast.Add) else 'subtracts') + ' {0} and {1}'):
                return A.fresh()
            x, y = A.sys.norm(x), A.sys.norm(y)
            return U(x.d, x.v, x.cyc if x.cyc == y.cyc else None)
        if isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv, ast.MatMult)):
            if isinstance(op, ast.Mult) and (isinstance(a, (Lst,)) or isinstance(b, (Lst,)) or
                                             (isinstance(a, Tup) and isinstance(b, Num)) or (isinstance(b, Tup) and isinstance(a, Num))):
                return A.fresh()
            for x in (a, b):
                if isinstance(x, Num) and x.value is None:
                    return A.fresh()      # may be a change of units
            s = 1 if isinstance(op, (ast.Mult, ast.MatMult)) else -1
            if isinstance(a, Num) and isinstance(b, Num):
                return Num(0.5, 0)
            return A.sys.mul(A.num(a), A.num(b), s)
        if isinstance(op, ast.Pow):
            return self.power(a, right, b)
        return A.fresh()

    def power(self, a, node, b):
        A = self.an
        n = constant(node)
        if isinstance(a, Num):
            return Num(None, 0) if n is None or isinstance(a.value, type(None)) or a.value == 10 else Num(0.5, 0)
        if n is None:
            return A.fresh()
        return A.sys.pow(A.num(a), n)

    # ---- calls
    def call(self, e):
        A = self.an
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr == 'format':
            base = self.ev(f.value)
            args = [self.ev(a) for a in e.args]
            kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
            if isinstance(base, Str):
                self.labels(base.text, args, kw, e)
            return base if isinstance(base, Str) else A.fresh()
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'extend') and len(e.args) == 1:
            b = self.ev(f.value)
            v = self.ev(e.args[0])
            if isinstance(b, Lst) and f.attr == 'append':
                if isinstance(v, Num):
                    pass
                elif b.elem is None:
                    b.elem = A.num(v)
                elif not same_u(A.sys.norm(b.elem), A.sys.norm(A.num(v))):
                    b.elem = A.fresh()
            elif isinstance(b, Lst):
                b.elem = A.fresh()
            return A.fresh()
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        star = any(isinstance(a, ast.Starred) for a in e.args)
        self.sink(name, args, kw, e, star)
        fv = self.ev(f)
        if isinstance(fv, Fn):
            if isinstance(f, ast.Attribute) and name in METHODS and METHODS[name] is not None and not isinstance(fv.selfv, Self):
                return METHODS[name]
            if name in METHODS and METHODS[name] is not None:
                return METHODS[name]
            if star:
                return A.fresh()
            r = self.inline(fv, args, kw)
            return r if r is not None else A.fresh()
        if isinstance(fv, Ext):
            return self.external(fv.dotted, args, kw, e)
        if isinstance(f, ast.Attribute):
            if name in METHODS and METHODS[name] is not None:
                return METHODS[name]
            recv = self.ev(f.value)
            if name in SAME and isinstance(recv, (U, Lst, Tup)):
                return A.num(recv)
            if name in ('dot',) and args:
                return A.sys.mul(A.num(recv), A.num(args[0]))
            if name in ('argmax', 'argmin', 'argsort'):
                return PURE
        return A.fresh()

    def inline(self, fv, args, kw):
        A = self.an
        if fv.func is not None:
            return A.function(fv.func, args, fv.selfv, kw)
        return A.function(None, args, None, kw, env=fv.env, node=fv.node, mod=fv.mod, cls=fv.cls)

    def sink(self, name, args, kw, e, star):
        s = SINKS.get(name)
        if not s or star:
            return
        for k, u in s.items():
            if u is None:
                continue
            if isinstance(k, int):
                if k < len(args) and plain(args[k]) and not isinstance(args[k], Num):
                    self.an.same(args[k], u, self, e, 'argument', 'argument %d of %s is in {0}, it takes {1}' % (k + 1, name))
            elif k in kw and plain(kw[k]) and not isinstance(kw[k], Num):
                self.an.same(kw[k], u, self, e, 'argument', 'argument %s of %s is in {0}, it takes {1}' % (k, name))

    def labels(self, template, args, kw, e):
        try:
            parts = list(string.Formatter().parse(template))
        except ValueError:
            return
        auto = 0
        for i, (lit, fname, spec, conv) in enumerate(parts):
            if fname is None:
                continue
            if fname == '':
                fname = str(auto)
                auto += 1
            after = parts[i + 1][0] if i + 1 < len(parts) else ''
            v = args[int(fname)] if fname.isdigit() and int(fname) < len(args) else kw.get(fname)
            if v is None or not plain(v) or isinstance(v, Num):
                continue
            self.label(lit, after, v, e)

    def label(self, before, after, v, e):
        A = self.an
        m = re.match(r'\s?([A-Za-z][A-Za-z/* ^()0-9]*)', after)
        if m:
            t = m.group(1)
            for pat, u in LABELS:
                x = re.match(pat, t, re.I if 'hz' in pat or 'ngs' in pat else 0)
                if x:
                    A.same(v, u, self, e, 'label', 'prints {0} as "%s"' % t.strip())
                    return
        if re.search(r'(^|\n)\s*run\s+$', before):
            self.count(e, v, e)
        elif re.search(r'(^|\n)\s*timestep\s+$', before):
            A.same(v, PS, self, e, 'label', 'the time step of LAMMPS (metal units: ps) is given in {0}')

    def percent(self, text, v, e):
        parts = re.split(r'%[-+ #0]*\d*(?:\.\d+)?[sdfgeEGi]', text)
        vs = v.items if isinstance(v, Tup) else [v]
        if len(parts) != len(vs) + 1:
            return
        for i, x in enumerate(vs):
            if plain(x) and not isinstance(x, Num):
                self.label(parts[i], parts[i + 1], x, e)

    def external(self, dotted, args, kw, e):
        A = self.an
        last = dotted.split('.')[-1]
        if last in ('simps', 'simpson', 'trapz', 'trapezoid') and args:
            x = kw.get('x', args[1] if len(args) > 1 else None)
            if x is None:
                return A.fresh()
            return A.sys.mul(A.num(args[0]), A.num(x))
        if last in PUREF or last in CIRC:
            if args:
                self.argument(last, args[0], e)
            return U({}, {}, 0)
        if last in ('sqrt', 'square', 'reciprocal', 'power', 'pow', 'float_power') and args:
            if last in ('power', 'pow', 'float_power'):
                return self.power(args[0], e.args[1] if len(e.args) > 1 else None, None) if len(e.args) > 1 else A.fresh()
            if isinstance(args[0], Num):
                return Num(0.5, 0)
            return A.sys.pow(A.num(args[0]), {'sqrt': Fraction(1, 2), 'square': Fraction(2), 'reciprocal': Fraction(-1)}[last])
        if last in COUNT:
            if last in ('range', 'xrange'):
                for a, n in zip(args, e.args):
                    self.count(n, a, e)
            return PURE
        if last == 'arange':
            vs = [a for a in args + [kw[k] for k in ('start', 'stop', 'step') if k in kw] if not isinstance(a, Num) and plain(a)]
            if not vs:
                return PURE if args else A.fresh()
            for x in vs[1:]:
                if not A.same(vs[0], x, self, e, 'sum', 'a range mixes {0} and {1}'):
                    return A.fresh()
            return A.num(vs[0])
        if last == 'linspace' and len(args) >= 2:
            vs = [a for a in args[:2] if not isinstance(a, Num) and plain(a)]
            if len(vs) == 2 and not A.same(vs[0], vs[1], self, e, 'sum', 'a range mixes {0} and {1}'):
                return A.fresh()
            n = args[2] if len(args) > 2 else kw.get('num')
            if n is not None:
                self.count(e, n, e)
            return A.num(vs[0]) if vs else A.fresh()
        if last == 'gradient' and args:
            if len(args) == 1:
                return A.num(args[0])
            if isinstance(args[1], Num):
                return A.fresh()
            return A.sys.mul(A.num(args[0]), A.num(args[1]), -1)
        if last in ('fftfreq', 'rfftfreq'):
            d = args[1] if len(args) > 1 else kw.get('d')
            if d is None:
                return PURE
            if isinstance(d, Num):
                return A.fresh()
            u = A.sys.pow(A.num(d), -1)
            return U(u.d, u.v, 1 if u.d == {'ps': Fraction(-1)} and not u.v else None)
        if last == 'interp' and len(args) >= 3:
            if not A.same(args[0], args[1], self, e, 'sum', 'interpolates at {0} a function of {1}'):
                return A.fresh()
            return A.num(args[2])
        if last in PRODUCT and len(args) >= 2:
            if any(isinstance(a, Num) for a in args[:2]):
                return A.fresh()
            return A.sys.mul(A.num(args[0]), A.num(args[1]))
        if last == 'cuda_acorrelate' and args:
            return A.sys.pow(A.num(args[0]), 2)
        if last in ('divide', 'true_divide') and len(args) == 2:
            return self.binop(ast.Div(), args[0], args[1], e, e.args[1])
        if last in ('add', 'subtract') and len(args) == 2:
            return self.binop(ast.Add(), args[0], args[1], e, e.args[1])
        if last in ('correlation_par', 'mem') and len(args) >= 3:
            return A.sys.mul(A.sys.pow(A.num(args[1]), 2), A.num(args[2]))
        if last == 'inv' and args:
            return A.sys.pow(A.num(args[0]), -1)
        if last in SAME and args:
            if isinstance(args[0], Num):
                return args[0] if last in ('float', 'int', 'float64', 'abs', 'round') else A.fresh()
            if last in ('sorted', 'reversed', 'list', 'tuple') and isinstance(args[0], (Tup, Lst)):
                return args[0]
            if isinstance(args[0], (Str, Fn, Ext, Self)):
                return A.fresh()
            u = A.sys.norm(A.num(args[0]))
            return U(u.d, u.v, u.cyc)
        if last in ('zip', 'enumerate') and args:
            if last == 'zip':
                return Lst2([self.element(a) for a in args])
            return Lst2([PURE, self.element(args[0])])
        if last in ('max', 'min') and args:
            return self.element(Tup(args))
        return A.fresh()

    def argument(self, fn, v, e):
        A = self.an
        if isinstance(v, Num) or not plain(v):
            return
        u = A.sys.norm(A.num(v))
        if u.d and not u.v:
            A.problems.append(('pure', self, e, 'the argument of %s is in %s, not a pure number' % (fn, A.sys.show(u))))
            return
        if u.v:
            return
        A.ok('pure', self, e)
        imaginary = fn in ('sin', 'cos', 'cexp') or any(isinstance(x, ast.Constant) and isinstance(x.value, complex) for x in ast.walk(e))
        if imaginary and u.cyc is not None:
            if u.cyc == 0 or not cyclic(u):
                A.ok('phase', self, e)
            else:
                A.problems.append(('phase', self, e, 'the phase is a frequency times a time %s' % (
                    'without the factor 2 pi' if u.cyc > 0 else 'with the factor 2 pi twice')))


def cyclic(u):
    return u.cyc in (1, -1)


class Num(U):
    """a number as written: pure in products, adapts in sums; value None: may be a change of units"""
    __slots__ = ('value',)

    def __init__(self, value, cyc):
        U.__init__(self, None, None, cyc)
        self.value = value


class Lst2(Tup):
    """iterable of tuples (zip, enumerate)"""

    def __init__(self, items):
        Tup.__init__(self, [Tup(items)])


def plain(v):
    return isinstance(v, (U, Lst)) or (isinstance(v, Tup) and bool(v.items))


def constant(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        return Fraction(repr(node.value)) if isinstance(node.value, float) else Fraction(node.value)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        c = constant(node.operand)
        return None if c is None else -c
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Div):
        a, b = constant(node.left), constant(node.right)
        if a is not None and b:
            return a / b
    return None


def analyse(prog):
    """run over every function: the analysis with its problems"""
    A = Analysis(prog)
    A.names = []
    n = 0
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        A.function(f)
        n += 1
    for m in prog.scripts.values():
        fr = Frame(A, {}, m, None, m.name)
        A.names.append(m.name)
        fr.block(m.tree.body)
        A.names.pop()
        n += 1
    return A, n
