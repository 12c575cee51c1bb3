"""Inference of reference frames: every axis of an array may be labelled with the basis its components refer to.

Labels: 'x' Cartesian (also Cartesian reciprocal space); 'y' Cartesian in the orientation of LAMMPS; 'd' some lattice, perhaps rescaled; 'u', 'p', 's' lattice of the unit cell, primitive cell, supercell,
with '^' for components (fractional coordinates) and '_' for basis vectors or reciprocal components; 'm' numbers of
repetitions along the lattice vectors; '' anything else or not known.  A contraction pairs 'x' with 'x' or components with
basis vectors of one lattice; anything else is a mixture of frames.  Only definite mixtures are reported.
"""
import ast
import re

LATTICE = 'ups'


def dual(l):
    if l in ('', 'x', 'y', 'm'):
        return l
    return l[0] + ('_' if l[1] == '^' else '^')


NAMES = {'x': 'Cartesian', 'y': 'Cartesian (LAMMPS orientation)', 'd^': 'lattice components', 'd_': 'lattice vectors', 'u^': 'unit cell fractional', 'u_': 'unit cell basis', 'p^': 'primitive cell fractional',
         'p_': 'primitive cell basis', 's^': 'supercell fractional', 's_': 'supercell basis', 'm': 'repetitions', '': 'unknown'}


class A:
    """array: labels of its axes (None: rank not known), power of 2 pi (None: not known), scale factors, diagonal of repetitions"""
    __slots__ = ('axes', 'pi', 'sc', 'diag')

    def __init__(self, axes=None, pi=0, sc=(), diag=0):
        self.axes, self.pi, self.sc, self.diag = axes, pi, sc, diag

    def but(self, **k):
        r = A(self.axes, self.pi, self.sc, self.diag)
        for a, b in k.items():
            setattr(r, a, b)
        return r

    def key(self):
        return self.axes, self.pi, self.sc, self.diag

    def show(self):
        if self.axes is None:
            return 'unknown'
        return '(' + ', '.join(NAMES[a] for a in self.axes) + ')'


class Sc:
    """scalar; power of 2 pi it carries"""
    __slots__ = ('pi', 'node')

    def __init__(self, pi=0, node=None):
        self.pi, self.node = pi, node


class Lit(Sc):
    """a number as written"""
    __slots__ = ('value',)

    def __init__(self, value):
        Sc.__init__(self, 0)
        self.value = value


class Tup:
    def __init__(self, items):
        self.items = items


class Iter:
    """iterable that gives tuples"""
    def __init__(self, items):
        self.items = items


class Fn:
    def __init__(self, func=None, node=None, env=None, mod=None, cls=None, selfv=None):
        self.func, self.node, self.env, self.mod, self.cls, self.selfv = func, node, env, mod, cls, selfv


class Ext:
    def __init__(self, dotted):
        self.dotted = dotted


class Self:
    def __init__(self, cls):
        self.cls = cls


class Obj:
    """object of phonopy: 'phonon', or one of its cells 'u', 'p', 's', 'sym'"""
    def __init__(self, kind):
        self.kind = kind


class Nothing:
    """None"""


NOTHING = Nothing()


def a(*axes, **k):
    return A(tuple(axes), **k)


Q = a('p_')
QC = a('x', pi=1)
CELL, PCELL, SCELL = a('u_', 'x'), a('p_', 'x'), a('s_', 'x')
POS, SPOS, TRAJ, STRAJ = a('', 'x'), a('', 'u^'), a('', '', 'x'), a('', '', 's^')
PM = a('u^', 'p_')
M = a('m')

# public getters: value (without / with a supercell argument)
METHODS = {
    'get_cell': (CELL, SCELL), 'get_primitive_cell': (PCELL, PCELL), 'get_primitive_matrix': (PM, PM),
    'get_positions': (POS, POS), 'get_scaled_positions': (SPOS, a('', 's^')),
    'get_supercell': (SCELL, SCELL), 'get_supercell_matrix': (M, M), 'get_supercell_phonon': (a('u^', 's_'), a('u^', 's_')),
    'get_relative_trajectory': (TRAJ, TRAJ), 'get_velocity_mass_average': (TRAJ, TRAJ), 'average_positions': (POS, POS),
    'get_mean_displacement_matrix': (a('', 'x', 'x'), a('', 'x', 'x')),
    'get_reduced_q_vector': (Q, Q), 'get_q_vector': (QC, QC), 'get_eigenvectors': (a('', '', 'x'), a('', '', 'x')),
    'get_vc': (TRAJ, TRAJ),
}
# classes of the getters above
OWNERS = {'Structure', 'Dynamics', 'Quasiparticle'}
ATTRS = {'reduced_q_vector': Q, 'trajectory': TRAJ, 'velocity': TRAJ}
GETTERS = {'trajectory': TRAJ, 'velocity': TRAJ}
# functions of the package: value
FUNCS = {
    'get_commensurate_points': a('', 'p_'), 'get_equivalent_q_points_by_symmetry': a('', 'p_'),
    'project_onto_wave_vector': TRAJ, 'atomic_displacements': a('', 'x'), 'relativize_trajectory': TRAJ,
    'relativize_trajectory_py': TRAJ,
}
# documented frames of parameters
PARAMS = {
    'project_onto_wave_vector': {'q_vector': QC}, 'project_onto_phonon': {'vc': TRAJ, 'eigenvectors': a('', '', 'x')},
    'project_onto_phonon2': {'vc': TRAJ, 'eigenvectors': a('', '', 'x')},
    'plot_phonon_modes': {'q_vector': QC, 'eigenvectors': a('', '', 'x'), 'supercell': M},
    'obtain_eigenvectors_and_frequencies': {'q_vector': Q}, 'get_equivalent_q_points_by_symmetry': {'q_point': Q},
    'check_commensurate': {'q_point': Q}, 'set_reduced_q_vector': {'q_vector': Q},
    'get_correct_arrangement': {'reference': POS}, 'generate_VASP_structure': {'supercell': M},
    'generate_LAMMPS_structure': {'supercell': M}, 'generate_test_trajectory': {'supercell': M},
    'get_cell': {'supercell': M}, 'get_positions': {'supercell': M}, 'get_scaled_positions': {'supercell': M},
    'get_cell_parameters': {'supercell': M}, 'get_masses': {'supercell': M}, 'set_cell': {'cell': CELL},
    'set_positions': {'cart_positions': POS}, 'set_primitive_matrix': {'primitive_matrix': PM},
    'write_xsf_file': {}, 'average_phonon': {},
}
INIT = {
    'Structure': {'cell': CELL, 'positions': POS, 'scaled_positions': SPOS, 'primitive_matrix': PM, 'primitive_cell': PCELL},
    'Dynamics': {'trajectory': TRAJ, 'scaled_trajectory': STRAJ, 'velocity': TRAJ, 'supercell': SCELL},
    'PhonopyAtoms': {'cell': CELL, 'positions': POS, 'scaled_positions': SPOS},
    'PhonopyLegacy': {'primitive_matrix': PM}, 'Phonopy': {'primitive_matrix': PM},
    'atomic_displacements': {0: a('', 'x'), 1: a('x'), 2: SCELL, 'trajectory': a('', 'x'), 'positions': a('x'), 'cell': SCELL},
    'set_tensor_symmetry_PJ': {1: a('x', 's_'), 2: a('', 's^')},
    'get_frequencies_with_eigenvectors': {0: Q}, 'get_frequencies': {0: Q}, 'get_dynamical_matrix_at_q': {0: Q},
}
POSITIONAL = {
    'obtain_eigenvectors_and_frequencies': {1: Q}, 'get_equivalent_q_points_by_symmetry': {0: Q}, 'check_commensurate': {0: Q},
    'project_onto_wave_vector': {1: QC}, 'plot_phonon_modes': {2: QC, 1: a('', '', 'x')}, 'set_reduced_q_vector': {0: Q},
    'set_cell': {0: CELL}, 'set_positions': {0: POS}, 'set_primitive_matrix': {0: PM}, 'get_correct_arrangement': {0: POS},
}
SINKS = {}
for _t in (INIT, POSITIONAL, PARAMS):
    for _n, _d in _t.items():
        SINKS.setdefault(_n, {}).update(_d)

SAME = {'array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'copy', 'real', 'imag', 'conj', 'conjugate', 'around', 'round', 'rint',
        'floor', 'ceil', 'astype', 'nan_to_num', 'abs', 'absolute', 'tolist', 'list', 'tuple', 'mod', 'deepcopy', 'asanyarray',
        'zeros_like', 'empty_like', 'ones_like', 'round_', 'negative', 'fix', 'trunc', 'real_if_close', 'require'}
DROP = {'average', 'mean', 'sum', 'max', 'min', 'std', 'median', 'amax', 'amin', 'prod', 'all', 'any', 'cumsum'}
ROUNDING = {'around', 'round', 'rint', 'round_', 'fix', 'floor', 'trunc'}


class Analysis:
    names = []

    def __init__(self, prog):
        self.prog = prog
        self.problems = []
        self.decided = {}
        self.stack = []
        self.names = []
        self.attrs = {}
        self.memo = {}

    def ok(self, rule, fr, node):
        self.decided.setdefault(rule, set()).add('%s: %s' % (fr.name, cut(node)))

    def bad(self, rule, fr, node, text):
        self.problems.append((rule, fr, node, text))

    def classes(self):
        return [c for m in self.prog.all_modules() for c in m.classes.values()]

    def stored(self, cls, attr):
        if cls not in self.attrs:
            d = self.attrs[cls] = {}
            for name, f in list(cls.methods.items()) + list(cls.getters.items()):
                if cls.name not in OWNERS and name in cls.methods:
                    continue
                t = METHODS.get(name, (None,))[0] if name in cls.methods else GETTERS.get(name)
                if t is None:
                    continue
                for n in own(f.node):
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                            and n.value.value.id == 'self':
                        d[n.value.attr] = t
            init = cls.methods.get('__init__')
            known = INIT.get(cls.name, {})
            for n in own(init.node) if init is not None else ():
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in known and n.value.id in init.params():
                    for x in n.targets:
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                            d.setdefault(x.attr, known[n.value.id])
        return self.attrs[cls].get(attr)

    def function(self, func, args=None, selfv=None, kwargs=None, env=None, node=None, mod=None, cls=None):
        n = node or func.node
        if n in self.stack or len(self.stack) > 4:
            return None
        fr = Frame(self, dict(env or {}), mod or func.mod, cls if func is None else func.cls,
                   func.qual if func is not None else (self.names[-1] if self.names else '') + '.' + getattr(n, 'name', 'lambda'))
        ar = n.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        vals = list(args or [])
        if selfv is not None:
            vals = [selfv] + vals
        for k, v in zip(names, vals):
            fr.env[k] = v
        bound = set(names[:len(vals)])
        for k, v in (kwargs or {}).items():
            if k in names or k in [x.arg for x in ar.kwonlyargs]:
                fr.env[k] = v
                bound.add(k)
        seeds = {}
        fname = getattr(n, 'name', None)
        if args is None:
            seeds = dict(PARAMS.get(fname, {}))
            if fname == '__init__' and func is not None and func.cls is not None:
                seeds = dict(INIT.get(func.cls.name, {}))
        if ar.vararg:
            fr.env[ar.vararg.arg] = None
        if ar.kwarg:
            fr.env[ar.kwarg.arg] = None
        defaults = dict(zip(reversed(names), reversed(ar.defaults)))
        defaults.update({x.arg: d for x, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None})
        for k in names + [x.arg for x in ar.kwonlyargs]:
            if k not in bound:
                if k in seeds:
                    fr.env[k] = seeds[k]
                elif k == 'self' and func is not None and func.cls is not None:
                    fr.env[k] = Self(func.cls)
                elif args is not None and k in defaults:
                    fr.env[k] = fr.ev(defaults[k])
                else:
                    fr.env[k] = None
        self.stack.append(n)
        self.names.append(fr.name)
        try:
            if isinstance(n, ast.Lambda):
                return fr.ev(n.body)
            fr.block(n.body)
            if func is not None and func.cls is not None and args is None:
                self.returned(func, fr)
        finally:
            self.stack.pop()
            self.names.pop()
        rets = [v for v, _ in fr.rets]
        if not rets:
            return NOTHING
        v = rets[0]
        for w in rets[1:]:
            v = fr.join(v, w)
        return v

    def returned(self, func, fr):
        name = func.node.name
        if name in func.cls.methods:
            want = METHODS.get(name) if func.cls.name in OWNERS else None
        else:
            want = (GETTERS[name],) * 2 if name in GETTERS and name in func.cls.getters else None
        if want is None:
            return
        for v, node in fr.rets:
            if not isinstance(v, A) or v.axes is None:
                continue
            if any(fits(v, w) for w in want):
                if any(l for l in v.axes):
                    self.ok('result', fr, node)
            elif definite(v, want):
                self.bad('result', fr, node, '%s returns %s instead of %s' % (name, described(v), described(want[0])))


def described(v):
    return v.show() + ('' if v.pi in (0, None) else ' times 2 pi' if v.pi == 1 else ' times (2 pi)^%s' % v.pi)


def differ(outs, rest):
    used = {n.id for s in rest for n in ast.walk(s) if isinstance(n, ast.Name)}
    for k in used:
        vs = [o[k] for o in outs if k in o]
        for v in vs[1:]:
            if isinstance(v, A) and isinstance(vs[0], A) and v.axes is not None and vs[0].axes is not None and v.axes != vs[0].axes:
                return True
    return False


def compatible(p, q):
    return p == q or (len(p) == len(q) == 2 and 'd' in (p[0], q[0]) and p[1] == q[1])


def pairs(l, r):
    """the two axes can be contracted"""
    return l == r and l in ('x', 'y') or len(l) == 2 and compatible(r, dual(l))


def definite(v, want):
    return not any(fits(v, w) for w in want)


def fits(v, w):
    """v may be what w says (labels from the last axis on)"""
    if v.axes is None or w.axes is None:
        return True
    for p, q in zip(reversed(v.axes), reversed(w.axes)):
        if p and q and not compatible(p, q):
            return False
    if v.pi is not None and w.pi is not None and v.pi != w.pi and 'x' in v.axes and recip(w):
        return False
    return True


def recip(w):
    return w.pi == 1


def own(node):
    """nodes of a function, not of the functions inside it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def cut(node):
    t = node if isinstance(node, str) else re.sub(r'\s+', ' ', ast.unparse(node))
    return t if len(t) < 100 else t[:97] + '...'


class Frame:
    def __init__(self, an, env, mod, cls, name):
        self.an, self.env, self.mod, self.cls, self.name = an, env, mod, cls, name
        self.rets = []
        self.dead = False

    def lammps(self):
        """the function reads or writes files of LAMMPS"""
        n = self.an.stack[0] if self.an.stack else None
        if n is None:
            return False
        if id(n) not in self.an.memo:
            self.an.memo[id(n)] = any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) and
                                      any(w in (x.value if isinstance(x.value, str) else x.value.decode('latin1')) for w in ('BOX BOUNDS', 'xlo xhi', ' xhi', 'boxxlo', 'boxxhi')) or
                                      isinstance(x, ast.Attribute) and x.attr == 'extract_box'
                                      for x in ast.walk(n))
        return self.an.memo[id(n)]

    # ---- statements
    def block(self, body, depth=0):
        for i, s in enumerate(body):
            if self.dead:
                break
            if isinstance(s, ast.If) and depth < 3 and not isinstance(s.test, ast.Constant):
                self.fork = []
                self.stmt(s)
                outs, self.fork = self.fork, None
                if self.dead or not outs or len(outs) < 2 or not differ(outs, body[i + 1:]):
                    continue
                # the branches give a variable different bases: what follows is read for each of them
                ends = []
                for o in outs:
                    self.env, self.dead = o, False
                    self.block(body[i + 1:], depth + 1)
                    if not self.dead:
                        ends.append(self.env)
                self.dead = not ends
                if ends:
                    self.env = self.joined(ends)
                return
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Return):
            self.rets.append((self.ev(s.value) if s.value is not None else NOTHING, s))
            self.dead = True
        elif isinstance(s, (ast.Continue, ast.Break, ast.Raise)):
            self.dead = True
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('exit', 'quit'):
                self.dead = True
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            load = ast.parse(ast.unparse(s.target), mode='eval').body
            old = self.ev(load)
            r = self.binop(s.op, old, v, s)
            if isinstance(s.target, ast.Name):
                self.bind(s.target, r, s)
        elif isinstance(s, ast.If):
            if isinstance(s.test, ast.Constant):
                self.block(s.body if s.test.value else s.orelse)
                return
            self.ev(s.test)
            none, some = none_test(s.test)
            self.branch([(s.body, none, some), (s.orelse, some, none)])
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            self.bind(s.target, self.element(it), s)
            self.branch([(s.body, None, None), ([], None, None)])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.branch([(s.body, None, None), ([], None, None)])
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branch([(s.body + s.orelse, None, None)] + [(h.body, None, None) for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = Fn(node=s, env=self.env, mod=self.mod, cls=self.cls)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            t = {}
            self.mod.add_import(s, t)
            for k, imp in t.items():
                self.env[k] = self.resolved(self.an.prog.resolve_import(imp))

    def branch(self, bodies):
        start = dict(self.env)
        outs = []
        for b, none, some in bodies:
            self.env = dict(start)
            self.dead = False
            if none is not None:
                if isinstance(self.env.get(none), (A, Tup)):
                    pass
                self.env[none] = NOTHING
            if some is not None and self.env.get(some) is NOTHING:
                self.env[some] = None
                if b:
                    # the branch where it is something is not reached from here
                    self.env = dict(start)
                    continue
            self.block(b)
            if not self.dead:
                outs.append(self.env)
        self.dead = not outs
        if not outs:
            self.env = start
            return
        self.fork = outs
        self.env = self.joined(outs)

    fork = None

    def joined(self, outs):
        env = {}
        for k in set().union(*outs):
            vs = [o[k] for o in outs if k in o]
            v = vs[0]
            for w in vs[1:]:
                v = self.join(v, w)
            env[k] = v
        return env

    def join(self, x, y):
        if x is y:
            return x
        if x is NOTHING:
            return y
        if y is NOTHING:
            return x
        if isinstance(x, Tup) and not x.items and isinstance(y, A):
            return y
        if isinstance(y, Tup) and not y.items and isinstance(x, A):
            return x
        if isinstance(x, A) and isinstance(y, A):
            if x.key() == y.key():
                return x
            if x.axes is None or y.axes is None or len(x.axes) != len(y.axes):
                axes = None
            else:
                axes = tuple(p if p == q else '' for p, q in zip(x.axes, y.axes))
            return A(axes, x.pi if x.pi == y.pi else None, x.sc if x.sc == y.sc else None, x.diag if x.diag == y.diag else 0)
        if isinstance(x, Sc) and isinstance(y, Sc):
            return Sc(x.pi if x.pi == y.pi else None)
        if isinstance(x, (Fn, Ext, Self, Obj)) and type(x) is type(y):
            return x
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.join(p, q) for p, q in zip(x.items, y.items)])
        return None

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            w = self.expected(t.id)
            if w is not None and isinstance(self.arr(v), A) and not any(self.arr(v).axes or 'x'):
                v = w
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for p, q in zip(t.elts, v.items):
                    self.bind(p, q, s)
            else:
                e = self.element(v) if isinstance(v, A) else None
                for p in t.elts:
                    self.bind(p.value if isinstance(p, ast.Starred) else p, e, s)
        elif isinstance(t, ast.Attribute):
            self.store(t, v, s, None)
        elif isinstance(t, ast.Subscript):
            b = t.value
            idx = self.ev(t)           # labels of the part that is replaced
            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                o = self.env.get(b.value.id)
                if isinstance(o, Self):
                    u = self.an.stored(o.cls, b.attr)
                    if u is not None and not isinstance(idx, A):
                        self.check_store(self.subs(u, t.slice), v, s, o, b.attr)
                        return
            if isinstance(idx, A) and isinstance(v, A):
                self.elementwise(idx, v, s, 'puts {1} where the array has {0}')
            if isinstance(b, ast.Name) and isinstance(self.env.get(b.id), Tup):
                old = self.env[b.id]
                self.env[b.id] = self.filled(t.slice, v) if not old.items else None

    def expected(self, name):
        """basis of what the function collects in the list it returns"""
        n = self.an.stack[-1] if self.an.stack else None
        if getattr(n, 'name', None) not in FUNCS:
            return None
        key = ('kept', id(n))
        if key not in self.an.memo:
            d = {}
            out = {r.value.id for r in own(n) if isinstance(r, ast.Return) and isinstance(r.value, ast.Name)}
            w = FUNCS[n.name]
            for c in own(n):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and len(c.args) == 1 and \
                        isinstance(c.func.value, ast.Name) and c.func.value.id in out and isinstance(c.args[0], ast.Name) and len(w.axes) > 1:
                    d[c.args[0].id] = w.but(axes=w.axes[1:])
            self.an.memo[key] = d
        return self.an.memo[key].get(name)

    def filled(self, sl, v):
        """an array just made, after a part of it was given a value"""
        idx = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        v = self.arr(v)
        if not isinstance(v, A) or not v.axes:
            return None
        n = sum(isinstance(i, ast.Slice) for i in idx)
        if n == 0 and len(idx) == 1:
            return v.but(axes=('',) + v.axes, diag=0)
        if n == len(v.axes):
            labels = list(v.axes)
            return v.but(axes=tuple(labels.pop(0) if isinstance(i, ast.Slice) else '' for i in idx), diag=0)
        return None

    def store(self, t, v, s, _):
        o = self.env.get(t.value.id) if isinstance(t.value, ast.Name) else None
        if not isinstance(o, Self):
            return
        u = self.an.stored(o.cls, t.attr)
        if u is not None:
            self.check_store(u, v, s, o, t.attr)

    def check_store(self, u, v, s, o, attr):
        if isinstance(u, A) and isinstance(v, A) and v.axes is not None:
            if fits(v, u):
                if any(v.axes):
                    self.an.ok('result', self, s)
            else:
                self.an.bad('result', self, s, 'what the getter of %s.%s gives is %s instead of %s' % (o.cls.name, attr, described(v), described(u)))

    # ---- expressions
    def element(self, v):
        if isinstance(v, A) and v.axes:
            return v.but(axes=v.axes[1:], diag=0) if len(v.axes) > 1 else Sc()
        if isinstance(v, Tup):
            if not v.items:
                return None
            x = v.items[0]
            for y in v.items[1:]:
                x = self.join(x, y)
            return x
        if isinstance(v, Iter):
            return Tup(v.items)
        return None

    def resolved(self, r):
        if r is None:
            return None
        if r[0] == 'func':
            return Fn(func=r[1], mod=r[1].mod)
        if r[0] in ('module', 'ext'):
            return Ext(r[1])
        if r[0] == 'class':
            return Ext('class ' + r[1].node.name)
        if r[0] == 'value' and len(r[2]) == 1 and isinstance(r[2][0], (ast.Constant, ast.BinOp, ast.UnaryOp)):
            return Sc(0)
        return None

    def ev(self, e):
        an = self.an
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return NOTHING
            if isinstance(e.value, (int, float, complex)):
                return Lit(e.value)
            return None
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.mod.resolve(e.id)
            return self.resolved(r) if r is not None else Ext('builtins.' + e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                for x in e.elts:
                    self.ev(x.value if isinstance(x, ast.Starred) else x)
                return None
            base = components(e.elts)
            if base is not None:
                v = self.arr(self.ev(base))
                if isinstance(v, A) and v.axes is not None and len(v.axes) == 1:
                    return v
            t = Tup([self.ev(x) for x in e.elts])
            if self.lammps():
                return triangular(t, e.elts) or t
            return t
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(v, Lit) and isinstance(e.op, ast.USub):
                return Lit(-v.value)
            return v
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left), self.ev(e.right)
            return self.binop(e.op, l, r, e)
        if isinstance(e, ast.Compare):
            vs = [self.ev(x) for x in [e.left] + e.comparators]
            for x, y, op in zip(vs, vs[1:], e.ops):
                if isinstance(x, A) and isinstance(y, A) and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                    self.elementwise(x, y, e, 'compares {0} with {1}')
            return None
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.ev(x)
            return None
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.Lambda):
            return Fn(node=e, env=self.env, mod=self.mod, cls=self.cls)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            save = dict(self.env)
            outer = ''
            for g in e.generators:
                it = self.ev(g.iter)
                if len(e.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(it, A) and it.axes:
                    outer = kept(e.elt, g.target.id, it.axes[0])
                self.bind(g.target, self.element(it), e)
                for c in g.ifs:
                    self.ev(c)
            v = self.ev(e.elt)
            self.env = save
            if isinstance(v, A) and v.axes is not None:
                return v.but(axes=(outer,) + v.axes, diag=0)
            return A(None) if v is None else a('') if isinstance(v, Sc) else None
        if isinstance(e, ast.DictComp):
            return None
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            return self.subs(self.ev(e.value), e.slice)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value)
            return None
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v, e)
            return v
        if isinstance(e, ast.Dict):
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if isinstance(k, ast.Constant) and k.value in ('cart', 'crys') and isinstance(v, A) and v.axes is not None and len(v.axes) == 2:
                    want = a('x', 'x') if k.value == 'cart' else a('u^', 'u^')
                    if fits(v, want):
                        an.ok('result', self, x)
                    else:
                        an.bad('result', self, x, 'the tensor for %r has the axes %s' % (k.value, v.show()))
            return None
        if isinstance(e, ast.Starred):
            self.ev(e.value)
        return None

    def attr(self, e):
        an = self.an
        v = self.ev(e.value)
        n = e.attr
        if isinstance(v, Ext):
            full = v.dotted + '.' + n
            if full in ('numpy.pi', 'math.pi', 'scipy.pi', 'scipy.constants.pi'):
                return PiSc()
            if v.dotted in an.prog.modules or any(m.startswith(v.dotted + '.') for m in an.prog.modules):
                return self.resolved(an.prog.module_attr(v.dotted, n))
            return Ext(full)
        if n in ('shape',):
            return a('')
        if n in ('size', 'ndim'):
            return Sc()
        if isinstance(v, Obj):
            return self.phonopy(v, n)
        if isinstance(v, A):
            if n == 'T':
                return v.but(axes=None if v.axes is None else v.axes[::-1])
            if n in ('real', 'imag'):
                return v
            if n == 'flat':
                return None
        if isinstance(v, Self):
            m = v.cls.lookup(an.prog, 'methods', n)
            if m is not None:
                return Fn(func=m, mod=m.mod, cls=m.cls, selfv=None if m.is_static() else v)
            if n in ATTRS and v.cls.lookup(an.prog, 'getters', n) is not None:
                return ATTRS[n]
            return an.stored(v.cls, n)
        if n in ATTRS:
            return ATTRS[n]
        return None

    def phonopy(self, v, n):
        k = v.kind
        if k == 'phonon':
            if n in ('unitcell', 'get_unitcell'):
                return Obj('u')
            if n in ('primitive', 'get_primitive'):
                return Obj('p')
            if n in ('supercell', 'get_supercell'):
                return Obj('s')
            if n in ('symmetry', 'get_symmetry', 'primitive_symmetry'):
                return Obj('sym')
            if n in ('primitive_matrix', 'get_primitive_matrix'):
                return PM
            if n in ('supercell_matrix', 'get_supercell_matrix'):
                return a('u^', 's_')
            return None
        if k == 'sym':
            if n == 'reciprocal_operations':
                return a('', 'u_', 'u^')
            if n == 'pointgroup_operations':
                return a('', 'u^', 'u_')
            return None
        if n in ('cell', 'get_cell'):
            return a(k + '_', 'x')
        if n in ('scaled_positions', 'get_scaled_positions'):
            return a('', k + '^')
        if n in ('positions', 'get_positions'):
            return POS
        return None

    def subs(self, v, sl):
        idx = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        kinds = []
        for i in idx:
            if isinstance(i, ast.Slice):
                for x in (i.lower, i.upper, i.step):
                    if x is not None:
                        self.ev(x)
                kinds.append('slice')
                continue
            if isinstance(i, ast.Constant) and i.value is None:
                kinds.append('new')
                continue
            if isinstance(i, ast.Constant) and i.value is Ellipsis:
                kinds.append('...')
                continue
            if isinstance(i, ast.Attribute) and i.attr == 'newaxis':
                kinds.append('new')
                continue
            w = self.ev(i)
            kinds.append('int' if isinstance(w, Sc) else 'array' if isinstance(w, A) and w.axes is not None and len(w.axes) == 1 else '?')
        if isinstance(v, (Tup, Iter)):
            if isinstance(v, Tup) and len(idx) == 1:
                i = idx[0]
                n = i.value if isinstance(i, ast.Constant) else -i.operand.value if isinstance(i, ast.UnaryOp) and \
                    isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant) else None
                if isinstance(n, int) and -len(v.items) <= n < len(v.items):
                    return v.items[n]
                if kinds == ['int']:
                    return self.element(v)
                if kinds == ['slice'] and v.items:
                    x = self.element(v)
                    return Tup(v.items) if all(isinstance(y, Sc) for y in v.items) else None
            return None
        if v is None and isinstance(sl, ast.Constant) and sl.value == 'super_cell':
            return M            # dataset with the numbers of repetitions
        if not isinstance(v, A) or v.axes is None:
            return Sc() if isinstance(v, Sc) else None
        axes = list(v.axes)
        if '...' in kinds:
            p = kinds.index('...')
            n = sum(1 for k in kinds if k in ('int', 'slice', 'array', '?'))
            kinds[p:p + 1] = ['slice'] * (len(axes) - n)
        if any(k == '?' for k in kinds):
            return None
        out = []
        for k in kinds:
            if k == 'new':
                out.append('')
                continue
            if not axes:
                return None
            l = axes.pop(0)
            if k == 'slice':
                out.append(l)
            elif k == 'array':
                out.append('')
        out += axes
        if not out:
            return Sc(v.pi)
        return v.but(axes=tuple(out), diag=0)

    # ---- arithmetic
    def binop(self, op, x, y, node):
        x, y = self.arr(x), self.arr(y)
        if isinstance(op, ast.MatMult):
            return self.dot(x, y, node)
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(x, A) and isinstance(y, A):
                return self.elementwise(x, y, node, ('adds' if isinstance(op, ast.Add) else 'subtracts') + ' {0} and {1}')
            if isinstance(x, A):
                return x
            if isinstance(y, A):
                return y
            return Sc() if isinstance(x, Sc) and isinstance(y, Sc) else None
        if isinstance(op, (ast.Mult, ast.Div)):
            s = 1 if isinstance(op, ast.Mult) else -1
            return self.times(x, y, s, node)
        if isinstance(op, ast.Mod):
            return x if isinstance(x, A) else None
        if isinstance(op, ast.Pow):
            if isinstance(x, Sc) and isinstance(y, Sc):
                return Sc(0 if x.pi == 0 else None)
            return None
        return None

    def times(self, x, y, s, node):
        if isinstance(x, Sc) and isinstance(y, Sc):
            if isinstance(x, PiSc) and isinstance(y, Lit) and s > 0:
                return Sc(1) if y.value in (2, -2) else x if y.value in (1, -1, 1j, -1j) else Sc(1) if y.value in (2j, -2j) else Sc(None)
            if isinstance(y, PiSc) and isinstance(x, Lit) and s > 0:
                return self.times(y, x, s, node)
            if isinstance(x, PiSc) or isinstance(y, PiSc):
                return Sc(None)
            if isinstance(x, Lit) and isinstance(y, Lit):
                return Lit(1.0)
            pi = None if x.pi is None or y.pi is None else x.pi + s * y.pi
            return Sc(pi, node)
        if isinstance(x, A) and isinstance(y, Sc):
            pi = None if x.pi is None or y.pi is None or isinstance(y, PiSc) else x.pi + s * y.pi
            return x.but(pi=pi, sc=self.scaled(x.sc, y, s), diag=0)
        if isinstance(x, Sc) and isinstance(y, A):
            if s < 0:
                if y.axes == ('m',):
                    return None
                return None
            return self.times(y, x, s, node)
        if isinstance(x, A) and isinstance(y, A):
            if x.axes is None or y.axes is None:
                return None
            if y.axes == ('m',) and x.axes:
                r = rescale(x.axes[-1], s)
                if x.axes[-1] in ('x', 'y', 'p^', 'p_'):
                    self.an.bad('product', self, node, '%s a %s axis by the numbers of repetitions of the unit cell' % (
                        'multiplies' if s > 0 else 'divides', NAMES[x.axes[-1]]))
                elif r:
                    self.an.ok('product', self, node)
                return x.but(axes=x.axes[:-1] + (r,), diag=0) if r is not None else None
            if x.axes == ('m',) and y.axes and s > 0:
                return self.times(y, x, s, node)
            # a column that multiplies rows
            if len(y.axes) <= len(x.axes) and not any(y.axes):
                return x.but(axes=blurred(x.axes, len(y.axes)), sc=None, diag=0)
            if len(x.axes) < len(y.axes) and not any(x.axes) and s > 0:
                return y.but(axes=blurred(y.axes, len(x.axes)), sc=None, diag=0)
            if s > 0 and x.axes == y.axes and len(x.axes) == 1 and x.axes[0]:
                return None
            return None
        if isinstance(x, A) and y is None:
            # an unknown factor: number or array
            return A(None, None, None)
        return None

    def scaled(self, sc, y, s):
        if sc is None:
            return None
        if isinstance(y, (Lit, PiSc)):
            return sc
        d = dict(sc)
        k = y.node if y.node is not None else id(y)
        d[k] = d.get(k, 0) + s
        return tuple(sorted(((p, q) for p, q in d.items() if q), key=lambda z: (str(type(z[0])), id(z[0]))))

    def arr(self, v):
        """a tuple of numbers or of arrays as an array"""
        if isinstance(v, Tup) and v.items:
            if all(isinstance(x, Sc) for x in v.items):
                return a('')
            xs = [self.arr(x) for x in v.items]
            if all(isinstance(x, A) and x.axes is not None for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = self.join(r, x)
                if r.axes is not None:
                    return r.but(axes=('',) + r.axes, diag=0)
            return None
        return v

    def elementwise(self, x, y, node, text):
        an = self.an
        if x.axes is None or y.axes is None:
            r = x if x.axes is not None else y
            return A(r.axes, x.pi if x.pi == y.pi else None, None)
        n = max(len(x.axes), len(y.axes))
        p = ('',) * (n - len(x.axes)) + x.axes
        q = ('',) * (n - len(y.axes)) + y.axes
        out, seen = [], False
        for i, j in zip(p, q):
            if i and j:
                if not compatible(i, j) and not (i == 'm' or j == 'm'):
                    an.bad('sum', self, node, text.format(x.show(), y.show()))
                    return A(None, None, None)
                seen = i == j and i != 'm' or seen
            out.append(i or j)
        if seen:
            an.ok('sum', self, node)
        return A(tuple(out), x.pi if x.pi == y.pi else None, x.sc if x.sc == y.sc else None)

    def dot(self, x, y, node):
        an = self.an
        x, y = self.arr(x), self.arr(y)
        x = A(None, None, None) if x is None else x
        if not isinstance(x, A) or not isinstance(y, A):
            if isinstance(x, Sc) or isinstance(y, Sc):
                return self.times(x, y, 1, node)
            return None
        pi = None if x.pi is None or y.pi is None else x.pi + y.pi
        sc = merge(x.sc, y.sc)
        if x.axes is None and y.axes is not None and len(y.axes) == 2 and y.axes[0] and y.axes[1] in ('x', 'y'):
            return A(('', y.axes[1]), pi, None)
        if x.axes is None or y.axes is None:
            return None
        if not x.axes or not y.axes:
            return None
        if x.diag and y.diag:
            return None
        l, r = x.axes[-1], (y.axes[0] if len(y.axes) == 1 else y.axes[-2])
        if x.diag or y.diag:
            d, o = (x, r) if x.diag else (y, l)
            k = d.diag
            t = rescale(o, k) if o else ''
            if o and t is None:
                an.bad('product', self, node, 'multiplies the numbers of repetitions %s and the %s axis of %s: %s' % (
                    '' if k > 0 else '(inverse)', NAMES[o], (y if x.diag else x).show(), cut(node)))
                return A(None, None, None)
            if o:
                an.ok('product', self, node)
            if x.diag:
                axes = (t,) + tuple(y.axes[1:]) if len(y.axes) <= 2 else y.axes[:-2] + (t,) + y.axes[-1:]
                return A(axes, pi, sc)
            return A(x.axes[:-1] + (t,), pi, sc)
        if l and r:
            if not pairs(l, r):
                if l == 'm' or r == 'm':
                    return None
                an.bad('product', self, node, 'contracts a %s axis with a %s axis' % (NAMES[l], NAMES[r]))
                return A(None, None, None)
            an.ok('product', self, node)
        axes = x.axes[:-1] + (() if len(y.axes) == 1 else y.axes[:-2] + y.axes[-1:])
        if not axes:
            return Sc(pi, node)
        return A(axes, pi, sc)

    # ---- calls
    def call(self, e):
        an = self.an
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr == 'append' and len(e.args) == 1:
            v = self.ev(e.args[0])
            if isinstance(f.value, ast.Name):
                old = self.env.get(f.value.id)
                v = self.arr(v)
                if isinstance(old, Tup) and not old.items:
                    self.env[f.value.id] = v.but(axes=('',) + v.axes, diag=0) if isinstance(v, A) and v.axes is not None else None
                elif isinstance(old, A) and isinstance(v, A) and v.axes is not None:
                    self.env[f.value.id] = self.join(old, v.but(axes=('',) + v.axes, diag=0))
                else:
                    self.env[f.value.id] = None
            return None
        args = [self.ev(x) for x in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        star = any(isinstance(x, ast.Starred) for x in e.args)
        recv = self.ev(f.value) if isinstance(f, ast.Attribute) else None
        if isinstance(recv, Obj):
            return self.phonopy(recv, name)
        if name in SINKS and not star:
            self.sink(name, args, kw, e)
        if name == 'Structure' and not star:
            self.scales(kw, e)
        fv = self.ev(f)
        if name == 'extract_atom' and isinstance(f, ast.Attribute) and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value in ('x', 'v', 'f'):
            return a('', 'y')
        if name in METHODS and isinstance(f, ast.Attribute) and self.trusted(f.value, recv, name):
            sup = kw.get('supercell', args[0] if args else NOTHING)
            return METHODS[name][0 if sup is NOTHING else 1]
        if isinstance(fv, Fn):
            if fv.func is not None and name in FUNCS:
                return FUNCS[name]
            if star:
                return None
            if fv.func is not None:
                return an.function(fv.func, args, fv.selfv, kw)
            return an.function(None, args, None, kw, env=fv.env, node=fv.node, mod=fv.mod, cls=fv.cls)
        if name in FUNCS:
            return FUNCS[name]
        if isinstance(fv, Ext):
            return self.external(fv.dotted, args, kw, e)
        if isinstance(f, ast.Attribute):
            recv = self.arr(recv)
            if name == 'dot' and args:
                return self.dot(recv, args[0], e)
            if isinstance(recv, A):
                return self.external('numpy.' + name, [recv] + args, kw, e)
        return None

    def trusted(self, node, recv, name):
        """the object whose getter is called is a structure or a trajectory"""
        an = self.an
        if isinstance(recv, Self):
            m = recv.cls.lookup(an.prog, 'methods', name)
            return m is None or m.cls.name in OWNERS
        owners = [c for c in an.classes() if name in c.methods]
        if all(c.name in OWNERS for c in owners):
            return True
        if not isinstance(node, ast.Name):
            return False
        top = node
        while getattr(top, '_parent', None) is not None and not isinstance(top, ast.FunctionDef):
            top = top._parent
        used = {n.attr for n in ast.walk(top) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == node.id}
        fit = [c for c in an.classes() if all(u in c.methods or u in c.getters for u in used)]
        return bool(fit) and all(c.name in OWNERS for c in fit)

    def sink(self, name, args, kw, e):
        an = self.an
        for k, u in SINKS[name].items():
            v = (args[k] if k < len(args) else None) if isinstance(k, int) else kw.get(k)
            v = self.arr(v)
            if not isinstance(v, A) or v.axes is None or u is None or u.axes == ('m',):
                continue
            if fits(v, u):
                if any(v.axes):
                    an.ok('argument', self, e)
            else:
                an.bad('argument', self, e, '%s of %s is %s, it takes %s' % (
                    'argument %d' % (k + 1) if isinstance(k, int) else k, name, described(v), described(u)))

    def scales(self, kw, e):
        c, p = kw.get('cell'), kw.get('positions')
        if isinstance(c, A) and isinstance(p, A) and c.sc is not None and p.sc is not None:
            if c.sc == p.sc:
                self.an.ok('scale', self, e)
            else:
                self.an.bad('scale', self, e, 'the cell and the Cartesian positions of a structure are not multiplied by the same factors')

    def external(self, dotted, args, kw, e):
        an = self.an
        last = dotted.split('.')[-1]
        xs = [self.arr(x) for x in args]
        x = xs[0] if xs else None
        if dotted.startswith('phonopy') or last in ('PhonopyLegacy', 'Phonopy'):
            if last in ('Phonopy', 'PhonopyLegacy', 'load'):
                return Obj('phonon')
            if last == 'Symmetry':
                return Obj('sym')
            return None
        if last in ('dot', 'matmul') and len(xs) >= 2:
            return self.dot(xs[0], xs[1], e)
        if last == 'multi_dot' and isinstance(args[0] if args else None, Tup):
            r = args[0].items[0]
            for y in args[0].items[1:]:
                r = self.dot(r, y, e)
            return r
        if last in ('inner', 'vdot') and len(xs) >= 2:
            y = xs[1]
            if isinstance(y, A) and y.axes is not None:
                return self.dot(xs[0], y.but(axes=y.axes[:-2] + y.axes[-2:][::-1]), e)
            return None
        if last in ('inv', 'pinv') and isinstance(x, A) and x.axes is not None and len(x.axes) >= 2:
            return x.but(axes=x.axes[:-2] + (dual(x.axes[-1]), dual(x.axes[-2])), pi=None if x.pi is None else -x.pi,
                         sc=None if x.sc is None else tuple((k, -n) for k, n in x.sc), diag=-x.diag)
        if last == 'solve' and len(xs) >= 2 and isinstance(x, A) and isinstance(xs[1], A) and x.axes and xs[1].axes and len(x.axes) == 2:
            y = xs[1]
            p, q = x.axes[0], y.axes[0]
            if p and q and not compatible(p, q):
                an.bad('product', self, e, 'solves for a right hand side with a %s axis, the matrix has a %s axis' % (NAMES[q], NAMES[p]))
                return A(None, None, None)
            if p and q:
                an.ok('product', self, e)
            return A((dual(x.axes[1]),) + y.axes[1:], None, None)
        if last in ('diag', 'diagflat') and isinstance(x, A) and x.axes is not None:
            if x.axes == ('m',):
                return A(('', ''), 0, (), 1)
            if len(x.axes) == 2:
                return M if set(x.axes) == {'u^', 's_'} else a('')
            return a('', '') if len(x.axes) == 1 else None
        if last in ('transpose', 'permute_dims') and isinstance(x, A) and x.axes is not None:
            if len(args) == 1 and 'axes' not in kw:
                return x.but(axes=x.axes[::-1])
            p = e.args[-1] if len(args) > 1 and isinstance(e.args[-1], (ast.Tuple, ast.List)) else next(
                (k.value for k in e.keywords if k.arg == 'axes'), None)
            if p is None and len(args) == len(x.axes) + 1:
                p = ast.Tuple(e.args, None)
            if p is not None and isinstance(p, (ast.Tuple, ast.List)) and len(p.elts) == len(x.axes) and \
                    all(isinstance(i, ast.Constant) for i in p.elts):
                return x.but(axes=tuple(x.axes[i.value] for i in p.elts))
            return None
        if last == 'swapaxes' and isinstance(x, A) and x.axes is not None:
            ns = [n.value for n in e.args if isinstance(n, ast.Constant)][-2:]
            if len(ns) == 2 and all(isinstance(n, int) and -len(x.axes) <= n < len(x.axes) for n in ns):
                t = list(x.axes)
                t[ns[0]], t[ns[1]] = t[ns[1]], t[ns[0]]
                return x.but(axes=tuple(t), diag=0)
            return None
        if last in ROUNDING and isinstance(x, A) and x.axes is not None and whole(e, args, kw):
            if x.axes and x.axes[-1] in ('x', 'y') and len(x.axes) <= 2:
                an.bad('round', self, e, 'rounds Cartesian components to whole numbers')
            elif x.axes and x.axes[-1] in ('u^', 'p^', 's^', 'd^', 'u_', 'p_', 's_', 'd_'):
                an.ok('round', self, e)
            return x.but(diag=0)
        if last in ('multiply',) and len(xs) >= 2:
            return self.times(xs[0], xs[1], 1, e)
        if last in ('divide', 'true_divide') and len(xs) >= 2:
            return self.times(xs[0], xs[1], -1, e)
        if last in ('add', 'subtract') and len(xs) >= 2:
            return self.binop(ast.Add() if last == 'add' else ast.Sub(), xs[0], xs[1], e)
        if last in SAME and args:
            if isinstance(x, A):
                return x
            if isinstance(x, Sc):
                return x
            return A(None) if last in ('array', 'asarray', 'asanyarray', 'ascontiguousarray') else x
        if last in DROP and isinstance(x, A) and x.axes is not None:
            ax = kw.get('axis', args[1] if len(args) > 1 else None)
            if isinstance(ax, Lit) and isinstance(ax.value, int) and -len(x.axes) <= ax.value < len(x.axes):
                n = ax.value % len(x.axes)
                t = x.axes[:n] + x.axes[n + 1:] if last != 'cumsum' else x.axes
                return x.but(axes=t, diag=0) if t else Sc()
            return Sc() if ax is None and 'axis' not in kw else None
        if last in ('float', 'int', 'norm', 'len', 'sqrt', 'float64', 'det', 'argmax', 'argmin', 'trace', 'cos', 'sin', 'arccos'):
            if last == 'norm' and ('axis' in kw or len(args) > 2):
                return a('')
            if last in ('sqrt', 'cos', 'sin', 'arccos') and isinstance(x, A):
                return A(None, None, None)
            return Sc(0, e)
        if last in ('memmap', 'zeros', 'empty', 'ones', 'full'):
            return Tup([])
        if last == 'product' and dotted.startswith('itertools'):
            return a('', '')
        if last in ('range', 'xrange', 'arange', 'unique', 'argsort', 'where'):
            return a('') if last in ('range', 'xrange', 'arange', 'argsort') else None
        if last == 'enumerate' and args:
            return Iter([Sc(), self.element(self.arr(args[0]) if not isinstance(args[0], Iter) else args[0])])
        if last == 'zip':
            return Iter([self.element(self.arr(v) if not isinstance(v, Iter) else v) for v in args])
        if last in ('vstack', 'concatenate', 'append', 'stack', 'hstack'):
            return None
        return None


class PiSc(Sc):
    """pi itself"""
    __slots__ = ()

    def __init__(self):
        Sc.__init__(self, None)


def rescale(l, k):
    """label of an axis multiplied (k=1) or divided (k=-1) by the repetitions along it"""
    if k > 0:
        return {'u_': 's_', 's^': 'u^', '': ''}.get(l)
    return {'s_': 'u_', 'u^': 's^', '': ''}.get(l)


def kept(e, name, label):
    """label of the axis a comprehension goes along, when its element is the item itself or the item divided by a number"""
    if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.func, (ast.Attribute, ast.Name)) and \
            (e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id) in ('array', 'asarray', 'list', 'tuple', 'copy'):
        return kept(e.args[0], name, label)
    if isinstance(e, ast.Name):
        return label if e.id == name else ''
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div) and isinstance(e.right, ast.Call):
        return ('d' + label[1] if len(label) == 2 and kept(e.left, name, label) else '')
    return ''


def components(elts):
    """the vector whose components, all of them in their order, are listed"""
    if len(elts) != 3 or not all(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == k and
                                 type(x.slice.value) is int for k, x in enumerate(elts)):
        return None
    return elts[0].value if len({ast.dump(x.value) for x in elts}) == 1 else None


def triangular(v, rows):
    """a 3x3 matrix as written, with zeros on one side of its diagonal: labels of a LAMMPS cell"""
    if len(rows) != 3 or not all(isinstance(r, (ast.Tuple, ast.List)) and len(r.elts) == 3 for r in rows):
        return None
    z = [[isinstance(x, ast.Constant) and x.value == 0 for x in r.elts] for r in rows]
    if any(z[i][i] for i in range(3)):
        return None
    low = [z[1][0], z[2][0], z[2][1]]
    up = [z[0][1], z[0][2], z[1][2]]
    if all(low) and not any(up):
        return a('y', 'd_')
    if all(up) and not any(low):
        return a('d_', 'y')
    return None


def blurred(axes, n):
    """labels after the last n axes were multiplied by numbers of their own"""
    k = len(axes) - n
    return axes[:k] + tuple('d' + l[1] if len(l) == 2 and i < n - 1 else '' if len(l) == 2 else l for i, l in enumerate(axes[k:]))


def merge(p, q):
    if p is None or q is None:
        return None
    if not p:
        return q
    if not q:
        return p
    return None


def whole(e, args, kw):
    """rounds to whole numbers"""
    d = next((k.value for k in e.keywords if k.arg in ('decimals', 'ndigits')), None)
    name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id
    if d is None and name in ('around', 'round', 'round_'):
        n = 1 if isinstance(e.func, ast.Name) or isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy') else 0
        d = e.args[n] if len(e.args) > n else None
    return d is None or isinstance(d, ast.Constant) and d.value == 0


def none_test(t):
    """(name that is None in the first branch, name that is not)"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        if isinstance(t.ops[0], ast.Is):
            return t.left.id, None
        if isinstance(t.ops[0], ast.IsNot):
            return None, t.left.id
    return None, None


def analyse(prog):
    an = Analysis(prog)
    n = 0
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        an.function(f)
        n += 1
    for m in prog.scripts.values():
        fr = Frame(an, {}, m, None, m.name)
        an.names.append(m.name)
        fr.block(m.tree.body)
        an.names.pop()
        n += 1
    return an, n
