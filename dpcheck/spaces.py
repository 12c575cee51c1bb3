"""Inference of index spaces: what the positions along each axis of an array stand for, and what the values of an index array point to.

Spaces: 'n' atoms of the unit cell, 'N' atoms of the supercell in the common order (all images of the first atom, then of the
second ..., first lattice direction fastest), 'i' images of an atom in this order, 'i0' 'i1' 'i2' repetitions along one direction,
'J' images with the last direction fastest, 'W' atoms of the supercell in another order, 't' types of atoms (atoms of the primitive
cell), 'F' atoms in the order of a file, 'k' digits; '' anything else or not known.  Only definite mixtures are reported."""
import ast

from . import frames
from .frames import Fn, Ext, Self, Nothing, NOTHING, Lit as FLit, Sc, own, cut

NAMES = {'A': 'as many as atoms of the supercell', 'n': 'atoms of the unit cell', 'N': 'atoms of the supercell', 'i': 'images', 'J': 'images with the last direction fastest',
         'W': 'atoms of the supercell in another order', 't': 'types of atoms', 'F': 'atoms in the order of the file',
         'i0': 'repetitions along the first direction', 'i1': 'repetitions along the second direction',
         'i2': 'repetitions along the third direction', '': 'unknown'}
ATOMS = ('n', 'N', 't', 'F', 'W', 'A')
COUNT = {'A': {'n': 1, 'i': 1}, 'n': {'n': 1}, 'N': {'n': 1, 'i': 1}, 'W': {'n': 1, 'i': 1}, 't': {'t': 1}, 'i': {'i': 1}, 'J': {'i': 1}, 'F': {'n': 1, 'i': 1},
         'i0': {'i0': 1}, 'i1': {'i1': 1}, 'i2': {'i2': 1}}


def spread(c):
    """i0 i1 i2 = i"""
    if c is None:
        return None
    c = {k: v for k, v in c.items() if v}
    if c.get('i0') and c.get('i0') == c.get('i1') == c.get('i2'):
        v = c.pop('i0')
        c.pop('i1')
        c.pop('i2')
        c['i'] = c.get('i', 0) + v
    return {k: v for k, v in c.items() if v}


def space_of(c):
    c = spread(c)
    for l in ('n', 'N', 't', 'i', 'i0', 'i1', 'i2'):
        if c is not None and c == COUNT[l]:
            return l
    return ''


def clash(a, b):
    """two spaces known to be different"""
    return a in ATOMS and b in ATOMS and a != b and not ('A' in (a, b) and {a, b} <= set('ANFW'))


def meet(a, b):
    return b if a == 'A' and b in ATOMS or a not in ATOMS else a


def order(parts):
    """label of an axis made by loops (the slowest first)"""
    p = [x for x in parts if x != '1'] or ['']
    if len(p) == 1:
        return p[0]
    if p == ['i2', 'i1', 'i0']:
        return 'i'
    if p in (['i0', 'i1', 'i2'],):
        return 'J'
    if not p or '' in p:
        return ''
    if p[0] == 'n':
        r = order(p[1:])
        return 'N' if r == 'i' else 'W' if r == 'J' else ''
    if p[-1] == 'n' and order(p[:-1]) in ('i', 'J'):
        return 'W'
    return ''


class S:
    """array or number: axes, space its values point into, number it counts (monomial), direction of triples (sizes 'M', cells 'C')"""
    def __init__(self, axes=(), val='', cnt=None, kind='', rev=False, made=None, term=None):
        self.axes, self.val, self.cnt, self.kind, self.rev, self.made, self.term = axes, val, cnt, kind, rev, made, term

    def but(self, **k):
        r = S(self.axes, self.val, self.cnt, self.kind, self.rev, self.made, self.term)
        for a, b in k.items():
            setattr(r, a, b)
        return r

    def first(self):
        return self.axes[0] if self.axes else ''

    def key(self):
        return self.axes, self.val, repr(self.cnt), self.kind, self.rev, self.term


class Building:
    """a list being filled"""
    def __init__(self, depth, ifs):
        self.depth, self.ifs = depth, ifs


class Flag:
    """true or false"""
    def __init__(self, value):
        self.value = value


class Ranges:
    def __init__(self, rev):
        self.rev = rev


class Cells:
    """the cells of a supercell, one after another"""
    def __init__(self, rev):
        self.rev = rev


class Tup:
    def __init__(self, items):
        self.items = items


class Iter:
    def __init__(self, items, space=''):
        self.items, self.space = items, space


def arr(*axes, **k):
    return S(tuple(axes), **k)


M = S(('',), kind='M')
UC, SC_ = (lambda *r, **k: arr('n', *r, **k)), (lambda *r, **k: arr('N', *r, **k))
METHODS = {
    'get_positions': (UC(''), SC_('')), 'get_scaled_positions': (UC(''), SC_('')), 'get_masses': (UC(), SC_()),
    'get_charges': (UC(), SC_()), 'get_atomic_numbers': (UC(), SC_()), 'get_atomic_elements': (UC(), SC_()),
    'get_atom_type_index': (UC(val='t'), SC_(val='t')),
    'get_number_of_cell_atoms': (S(cnt={'n': 1}),) * 2, 'get_number_of_atoms': (S(cnt={'n': 1}),) * 2,
    'get_number_of_atom_types': (S(cnt={'t': 1}),) * 2, 'get_number_of_primitive_atoms': (S(cnt={'t': 1}),) * 2,
    'get_cell': (arr('', ''),) * 2, 'get_primitive_cell': (arr('', ''),) * 2, 'get_primitive_matrix': (arr('', ''),) * 2,
    'get_supercell_matrix': (M, M), 'get_eigenvectors': (arr('', 't', ''),) * 2, 'get_vc': (arr('', 't', ''),) * 2,
    'get_relative_trajectory': (arr('', 'N', ''),) * 2, 'get_velocity_mass_average': (arr('', 'N', ''),) * 2,
    'get_mean_displacement_matrix': (arr('t', '', ''),) * 2,
}
GETTERS = {'trajectory': arr('', 'N', ''), 'velocity': arr('', 'N', '')}
EXPANDED = ('get_positions', 'get_scaled_positions', 'get_masses', 'get_charges', 'get_atomic_numbers', 'get_atomic_elements', 'get_atom_type_index')
FUNCS = {'obtain_eigenvectors_and_frequencies': Tup([arr('', 't', ''), arr('')]), 'project_onto_wave_vector': arr('', 't', ''),
         'get_correct_arrangement': arr('F', val='N'), 'check_atoms_order': arr('F', val='N')}
EIG = arr('', 't', '')
SEEDS = {'get_correct_arrangement': {'reference': arr('F', '')}}
PARAMS = {
    'project_onto_phonon': {'vc': EIG, 'eigenvectors': EIG},
    'project_onto_phonon2': {'vc': EIG, 'eigenvectors': EIG}, 'plot_phonon_modes': {'eigenvectors': EIG},
    'project_onto_wave_vector': {'project_on_atom': S(val='t')},
    'set_masses': {'masses': UC()}, 'set_positions': {'cart_positions': UC('')},
}
for _f in EXPANDED + ('generate_VASP_structure', 'generate_LAMMPS_structure', 'generate_test_trajectory', 'plot_phonon_modes', 'get_cell_parameters', 'get_cell'):
    PARAMS.setdefault(_f, {})['supercell'] = M
INIT = {
    'Structure': {'masses': UC(), 'positions': UC(''), 'scaled_positions': UC(''), 'atomic_numbers': UC(), 'atomic_elements': UC(),
                  'charges': UC(), 'atom_type_index': UC(val='t')},
    'Dynamics': {'trajectory': arr('', 'N', ''), 'velocity': arr('', 'N', ''), 'scaled_trajectory': arr('', 'N', '')},
    'PhonopyAtoms': {'symbols': UC(), 'scaled_positions': UC(''), 'positions': UC(''), 'masses': UC(), 'numbers': UC()},
}
SAME = frames.SAME | {'inv', 'pinv', 'around', 'rint', 'floor', 'ceil', 'diag_', 'sqrt', 'power', 'square', 'exp', 'sorted_', 'astype', 'real', 'flatten_', 'squeeze_', 'conj'}


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.problems, self.decided = [], {}
        self.stack, self.names, self.attrs, self.memo, self.sets = [], [], {}, {}, {}

    def instance(self, cls):
        """attributes set in the methods of the class"""
        if cls not in self.sets:
            self.sets[cls] = {n.attr for m in cls.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and
                              isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Store)}
        return self.sets[cls]

    def ok(self, rule, fr, node):
        self.decided.setdefault(rule, set()).add('%s: %s' % (fr.name, cut(node)))

    def bad(self, rule, fr, node, text):
        self.problems.append((rule, fr, node, text))

    classes = frames.Analysis.classes

    def stored(self, cls, attr):
        if cls not in self.attrs:
            d = self.attrs[cls] = {}
            if cls.name in frames.OWNERS:
                for name, f in list(cls.methods.items()) + list(cls.getters.items()):
                    t = METHODS.get(name, (None,))[0] if name in cls.methods and name not in EXPANDED else GETTERS.get(name)
                    if name == 'get_number_of_atoms' and cls.name != 'Structure':
                        t = S(cnt=dict(COUNT['N'])) if cls.name == 'Dynamics' else None
                    if t is None:
                        continue
                    for n in own(f.node):
                        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                                and n.value.value.id == 'self':
                            d[n.value.attr] = t
            init = cls.methods.get('__init__')
            known = INIT.get(cls.name, {})
            for n in own(init.node) if init is not None else ():
                if isinstance(n, ast.Assign):
                    names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & set(known)
                    if len(names) == 1 and (isinstance(n.value, ast.Name) or isinstance(n.value, ast.Call)):
                        for x in n.targets:
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                                d.setdefault(x.attr, known[next(iter(names))])
        return self.attrs[cls].get(attr)

    def function(self, func, args=None, selfv=None, kwargs=None, env=None, node=None, mod=None, cls=None):
        n = node or func.node
        if n in self.stack or len(self.stack) > 4:
            return None
        fr = Frame(self, dict(env or {}), mod or func.mod, cls if func is None else func.cls,
                   func.qual if func is not None else (self.names[-1] if self.names else '') + '.' + getattr(n, 'name', 'lambda'))
        fr.node = n
        ar = n.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        vals = ([selfv] if selfv is not None else []) + list(args or [])
        for k, v in zip(names, vals):
            fr.env[k] = v
        bound = set(names[:len(vals)])
        for k, v in (kwargs or {}).items():
            if k in names or k in [x.arg for x in ar.kwonlyargs]:
                fr.env[k] = v
                bound.add(k)
        seeds = {}
        fname = getattr(n, 'name', None)
        if args is None:
            seeds = dict(PARAMS.get(fname, {}), **SEEDS.get(fname, {}))
            if 'template' in names:
                seeds['template'] = arr('F', val='N')
            if fname == '__init__' and func is not None and func.cls is not None:
                seeds = dict(INIT.get(func.cls.name, {}))
        defaults = dict(zip(reversed(names), reversed(ar.defaults)))
        defaults.update({x.arg: d for x, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None})
        for k in names + [x.arg for x in ar.kwonlyargs] + [x.arg for x in (ar.vararg, ar.kwarg) if x]:
            if k not in bound:
                if k in seeds:
                    fr.env[k] = seeds[k]
                elif k == 'self' and func is not None and func.cls is not None:
                    fr.env[k] = Self(func.cls)
                elif (args is not None or fname in EXPANDED) and k in defaults and k != 'supercell':
                    fr.env[k] = fr.ev(defaults[k])
                else:
                    fr.env[k] = None
        self.stack.append(n)
        self.names.append(fr.name)
        try:
            if isinstance(n, ast.Lambda):
                return fr.ev(n.body)
            fr.block(n.body)
            if args is None and func is not None:
                self.returned(func, fr)
        finally:
            self.stack.pop()
            self.names.pop()
        rets = [v for v, _ in fr.rets]
        if not rets:
            return NOTHING
        v = rets[0]
        for w in rets[1:]:
            v = fr.join(v, w)
        return v

    def returned(self, func, fr):
        name = func.node.name
        if func.cls is not None:
            if func.cls.name not in frames.OWNERS:
                return
            want = (S(cnt=dict(COUNT['n' if func.cls.name == 'Structure' else 'N'])),) * 2 if name == 'get_number_of_atoms' else \
                METHODS.get(name) if name in func.cls.methods else (GETTERS[name],) * 2 if name in GETTERS and name in func.cls.getters else None
        else:
            want = (FUNCS[name],) * 2 if name in FUNCS and isinstance(FUNCS[name], S) else None
        if want is None:
            return
        for v, node in fr.rets:
            v = fr.arr(v)
            if not isinstance(v, S):
                continue
            rule = 'order' if name in EXPANDED else 'result'
            if any(fits(v, w) for w in want):
                if any(v.axes) and any(w.axes and v.axes and w.axes[0] == v.axes[0] for w in want) or v.val or v.cnt:
                    self.ok(rule, fr, node)
            else:
                self.bad(rule, fr, node, '%s returns %s instead of %s' % (name, show(v), show(want[1])))


def show(v):
    s = '(' + ', '.join(NAMES.get(a, a) for a in v.axes) + ')' if v.axes else 'a number'
    return s + (' pointing to ' + NAMES[v.val] if v.val else '')


def fits(v, w):
    if len(v.axes) == len(w.axes) == 1 and v.val and (v.axes[0] == v.val or v.kind == 'same'):
        return True
    if len(v.axes) == len(w.axes):
        for p, q in zip(v.axes, w.axes):
            if clash(p, q):
                return False
    elif v.axes and w.axes and clash(v.first(), w.first()):
        return False
    if clash(v.val, w.val):
        return False
    if v.cnt is not None and w.cnt is not None and space_of(v.cnt) in ATOMS and space_of(v.cnt) != space_of(w.cnt):
        return False
    return True


class Frame(frames.Frame):
    def __init__(self, *a):
        frames.Frame.__init__(self, *a)
        self.loops, self.ifs = [], 0

    # ---- statements
    def stmt(self, s):
        if isinstance(s, ast.For):
            it = self.ev(s.iter)
            self.bind(s.target, self.element(it), s)
            self.loops.append(self.space(it))
            self.branch([(s.body, None, None), ([], None, None)] if not built(s.body) else [(s.body, None, None)])
            self.loops.pop()
            self.dead = False
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.loops.append('')
            self.branch([(s.body, None, None), ([], None, None)])
            self.loops.pop()
            self.dead = False
        elif isinstance(s, ast.If):
            t = self.ev(s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else s.test) \
                if isinstance(s.test, (ast.Name, ast.UnaryOp)) else None
            if isinstance(t, Flag):
                self.block(s.body if t.value != isinstance(s.test, ast.UnaryOp) else s.orelse)
                return
            self.ifs += 1
            frames.Frame.stmt(self, s)
            self.ifs -= 1
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and \
                isinstance(self.env.get(s.target.id), (Building, S)) and (isinstance(self.env[s.target.id], Building) or self.env[s.target.id].made):
            v = self.arr(self.ev(s.value))
            self.extend(s.target.id, v.axes[0] if isinstance(v, S) and v.axes else '', v.but(axes=v.axes[1:]) if isinstance(v, S) and v.axes else None)
        else:
            frames.Frame.stmt(self, s)

    def space(self, it):
        if isinstance(it, Iter):
            return it.space
        if isinstance(it, Cells):
            return 'i' if it.rev else 'J'
        if isinstance(it, S) and it.axes:
            return it.axes[0]
        return ''

    def extend(self, name, inner, elem):
        """the list gets elements at this point of the loops"""
        old = self.env.get(name)
        if isinstance(old, Building):
            depth, ifs = old.depth, old.ifs
        elif isinstance(old, S) and old.made:
            depth, ifs = old.made
            self.env[name] = S(('',) + (old.axes[1:] if old.axes else ()), made=old.made)
            return
        else:
            self.env[name] = None
            return
        parts = self.loops[depth:] + ([inner] if inner is not None else [])
        label = '' if self.ifs > ifs else order(parts)
        if isinstance(elem, S):
            self.env[name] = elem.but(axes=(label,) + elem.axes, cnt=None, made=(depth, ifs), term=None)
        else:
            self.env[name] = S((label, '*') if elem is None else (label,), made=(depth, ifs))

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            if isinstance(v, Tup) and not v.items:
                v = Building(len(self.loops), self.ifs)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for p, q in zip(t.elts, v.items):
                    self.bind(p, q, s)
            else:
                e = self.element(v) if isinstance(v, S) else None
                for p in t.elts:
                    self.bind(p.value if isinstance(p, ast.Starred) else p, e, s)
        elif isinstance(t, ast.Attribute):
            o = self.env.get(t.value.id) if isinstance(t.value, ast.Name) else None
            if isinstance(o, Self):
                self.check_store(self.an.stored(o.cls, t.attr), v, s, t.attr)
        elif isinstance(t, ast.Subscript):
            self.ev(t)

    def check_store(self, u, v, s, attr):
        v = self.arr(v)
        if isinstance(u, S) and isinstance(v, S):
            if fits(v, u):
                if any(v.axes) or v.cnt:
                    self.an.ok('result', self, s)
            else:
                self.an.bad('result', self, s, '%s is %s, elsewhere it is %s' % (attr, show(v), show(u)))

    def join(self, x, y):
        if x is y:
            return x
        if x is NOTHING:
            return y
        if y is NOTHING:
            return x
        if isinstance(x, Building) and (isinstance(y, S) and y.made):
            return y
        if isinstance(y, Building) and (isinstance(x, S) and x.made):
            return x
        if isinstance(x, Building) and isinstance(y, Building):
            return x
        x, y = self.arr(x), self.arr(y)
        if isinstance(x, S) and isinstance(y, S):
            if len(x.axes) != len(y.axes):
                return None
            return S(tuple(p if p == q else '' if clash(p, q) or p not in ATOMS or q not in ATOMS else meet(p, q) for p, q in zip(x.axes, y.axes)), x.val if x.val == y.val else '',
                     x.cnt if x.cnt == y.cnt else None, x.kind if x.kind == y.kind and x.rev == y.rev else '', x.rev,
                     x.made if x.made == y.made else None, x.term if x.term == y.term else None)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.join(p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, (Fn, Ext, Self)) and type(x) is type(y):
            return x
        return None

    # ---- expressions
    def arr(self, v):
        if isinstance(v, Tup) and v.items and all(isinstance(x, S) for x in v.items):
            r = v.items[0]
            for x in v.items[1:]:
                r = self.join(r, x)
            if isinstance(r, S):
                return r.but(axes=('',) + r.axes, cnt=None, term=None, kind='')
        return v

    def element(self, v):
        if isinstance(v, S) and v.axes:
            if v.kind == 'M':
                return S(kind='m', rev=v.rev)
            return None if v.axes[0] == '*' or v.axes == ('', '*') else v.but(axes=v.axes[1:] if v.axes[1:] != ('*',) else ('*',), made=None, cnt=None)
        if isinstance(v, Tup):
            r = None
            for i, x in enumerate(v.items):
                r = x if i == 0 else self.join(r, x)
            return r
        if isinstance(v, Iter):
            return Tup(v.items) if len(v.items) > 1 else v.items[0]
        if isinstance(v, Cells):
            return S(('',), kind='C', rev=v.rev)
        return None

    def ev(self, e):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return NOTHING
            if isinstance(e.value, bool):
                return Flag(e.value)
            return FLit(e.value) if isinstance(e.value, (int, float)) else None
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.mod.resolve(e.id)
            return self.resolved(r) if r is not None else Ext('builtins.' + e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            items = [self.ev(x) for x in e.elts]
            if len(items) > 1 and all(isinstance(x, FLit) for x in items) and len({x.value for x in items}) == 1 and items[0].value == 1:
                return M
            if len(items) == 1 and isinstance(e, ast.List):
                return self.one(items[0])
            return Tup(items)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(v, FLit) and isinstance(e.op, ast.USub):
                return FLit(-v.value)
            return v
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)
        if isinstance(e, ast.Compare):
            vs = [self.arr(self.ev(x)) for x in [e.left] + e.comparators]
            r = None
            for x, y, op in zip(vs, vs[1:], e.ops):
                if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                    continue
                if isinstance(x, S) and isinstance(y, S):
                    r = self.combine(x, y, e, 'compares')
                    if x.val in ATOMS and y.val in ATOMS and not (x.axes or y.axes):
                        if clash(x.val, y.val):
                            self.an.bad('index', self, e, 'compares an index of the %s with an index of the %s' % (NAMES[x.val], NAMES[y.val]))
                        else:
                            self.an.ok('index', self, e)
                elif isinstance(x, S) or isinstance(y, S):
                    r = x if isinstance(x, S) else y
            return S(r.axes, kind='mask') if isinstance(r, S) else None
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.ev(x)
            return None
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.join(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, ast.Lambda):
            return Fn(node=e, env=self.env, mod=self.mod, cls=self.cls)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            save = dict(self.env)
            parts, skip, sizes = [], False, None
            for g in e.generators:
                it = self.ev(g.iter)
                sizes = it if isinstance(it, S) and it.kind == 'M' else None
                parts.append(self.space(it))
                self.bind(g.target, self.element(it), e)
                for c in g.ifs:
                    skip = True
                    self.ev(c)
            n = len(self.loops)
            self.loops += parts
            v = self.ev(e.elt)
            del self.loops[n:]
            self.env = save
            if sizes is not None and len(parts) == 1 and isinstance(v, S) and v.kind == 'm-range':
                return Ranges(sizes.rev)
            label = '' if skip or isinstance(e, ast.SetComp) else order(parts)
            v = self.arr(v)
            if isinstance(v, S):
                return v.but(axes=(label,) + v.axes, cnt=None, made=(len(self.loops), self.ifs), term=None)
            return S((label,) if isinstance(v, FLit) else (label, '*'), made=(len(self.loops), self.ifs))
        if isinstance(e, (ast.DictComp, ast.Dict)):
            return None
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            return self.subs(self.ev(e.value), e.slice, e)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.written(self.ev(x.value), x.value)
            return None
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v, e)
            return v
        return None

    def one(self, v):
        """[v]"""
        v = self.arr(v)
        if isinstance(v, FLit):
            return S(('1',), term=('ones', v.value))
        if isinstance(v, S):
            return v.but(axes=('1',) + v.axes, cnt=None, made=None)
        return S(('1',))

    def attr(self, e):
        v = self.ev(e.value)
        n = e.attr
        an = self.an
        if isinstance(v, Ext):
            if v.dotted in an.prog.modules or any(m.startswith(v.dotted + '.') for m in an.prog.modules):
                return self.resolved(an.prog.module_attr(v.dotted, n))
            return Ext(v.dotted + '.' + n)
        v = self.arr(v)
        if isinstance(v, S):
            if n == 'shape':
                return Tup([S(cnt=COUNT.get(a)) for a in v.axes])
            if n == 'T':
                return v.but(axes=v.axes[::-1])
            if n in ('real', 'imag'):
                return v
            return None
        if isinstance(v, Self):
            m = v.cls.lookup(an.prog, 'methods', n)
            if m is not None:
                return Fn(func=m, mod=m.mod, cls=m.cls, selfv=None if m.is_static() else v)
            if n in GETTERS and v.cls.lookup(an.prog, 'getters', n) is not None:
                return GETTERS[n]
            if n == 'project_on_atom':
                return S(val='t')
            return an.stored(v.cls, n)
        if n in GETTERS:
            return GETTERS[n]
        if n == 'project_on_atom':
            return S(val='t')
        return None

    def subs(self, v, sl, node=None):
        idx = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        v = self.arr(v) if not isinstance(v, Tup) else v
        vals = []
        for i in idx:
            if isinstance(i, ast.Slice):
                bounds = [self.ev(x) if x is not None else None for x in (i.lower, i.upper, i.step)]
                vals.append(('slice', bounds, i))
            elif isinstance(i, ast.Constant) and i.value is None or isinstance(i, ast.Attribute) and i.attr == 'newaxis':
                vals.append(('new', None, i))
            else:
                vals.append(('ix', self.arr(self.ev(i)), i))
        if isinstance(v, Tup):
            if len(vals) == 1 and vals[0][0] == 'ix' and isinstance(vals[0][1], FLit):
                n = vals[0][1].value
                if isinstance(n, int) and -len(v.items) <= n < len(v.items):
                    return v.items[n]
            return self.element(v) if len(vals) == 1 and vals[0][0] == 'ix' else None
        if not isinstance(v, S):
            for k, x, i in vals[:2] if v is None else ():
                if k == 'ix' and isinstance(x, S):
                    self.reorder(x, node)
            return None
        if v.kind in ('M', 'C') and len(vals) == 1:
            k, x, i = vals[0]
            if k == 'slice' and isinstance(i.step, ast.UnaryOp) and i.lower is None and i.upper is None:
                return v.but(rev=not v.rev)
            if k == 'slice':
                return v if not any(x) else None
            if isinstance(x, FLit) and v.kind == 'M' and isinstance(x.value, int):
                n = x.value if x.value >= 0 else 3 + x.value
                n = 2 - n if v.rev else n
                return S(cnt={'i%d' % n: 1}) if 0 <= n < 3 else None
            if isinstance(x, S) and x.val in ('i0', 'i1', 'i2'):
                return None
            return None
        axes = list(v.axes)
        out = []
        if any(isinstance(i, ast.Constant) and i.value is Ellipsis for _, _, i in vals):
            return None
        for k, x, i in vals:
            if k == 'new':
                out.append('')
                continue
            if not axes:
                return None
            a = axes.pop(0) if axes[0] != '*' else ''
            if k == 'slice':
                full = all(b is None for b in x)
                out.append(a if full else '')
                continue
            if isinstance(x, S):
                if x.kind == 'mask':
                    if clash(x.first(), a):
                        self.an.bad('index', self, node or i, 'selects %s with a condition on %s' % (NAMES[a], NAMES[x.first()]))
                        return None
                    out.append('')
                    continue
                if x.val in ATOMS and a in ATOMS:
                    if clash(x.val, a):
                        self.an.bad('index', self, node or i, 'an axis of %s is indexed with an index of %s' % (NAMES[a], NAMES[x.val]))
                        return None
                    self.an.ok('index', self, node or i)
                elif a == '' and self.reorder(x, node):
                    return None
                out += list(x.axes)
            elif isinstance(x, FLit):
                pass
            elif x is None:
                return None if k != 'ix' else self.rest(v, axes, out)
        r = v.but(axes=tuple(out + axes), cnt=None, made=None, kind='mask' if v.kind == 'mask' else 'first' if v.kind == 'first' and
                  len(vals) == 1 and isinstance(vals[0][1], S) and vals[0][1].kind == 'perm' else '')
        return r

    def reorder(self, x, node):
        """atoms that are read are put in the order of the supercell"""
        if x.val == 'N' and x.axes == ('F',) and isinstance(getattr(node, 'ctx', None), ast.Load):
            if isinstance(self.node, ast.FunctionDef) and any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', '')) == 'Dynamics'
                                                              for n in ast.walk(self.node)):
                self.an.bad('reorder', self, node, 'what is read from the file is taken at the places of the supercell instead of the inverse')
                return True
        elif x.val == 'F' and x.axes == ('N',):
            self.an.ok('reorder', self, node)
        return False

    def rest(self, v, axes, out):
        return None

    def binop(self, op, x, y, node):
        x, y = self.arr(x), self.arr(y)
        if isinstance(op, ast.Add) and (self.listlike(node, True) or self.listlike(node, False)):
            if isinstance(x, S) and isinstance(y, S) and len(x.axes) == len(y.axes):
                return S(('',) + x.axes[1:], x.val)
            return None
        if isinstance(op, ast.Mult):
            for p, q in ((x, y), (y, x)):
                # a list repeated
                if isinstance(p, S) and p.axes and self.listlike(node, p is x) and isinstance(q, S) and q.cnt is not None and not q.axes:
                    s = space_of(q.cnt)
                    if p.term and p.term[0] == 'ones' and p.term[1] == 1:
                        return M
                    if p.axes[0] == '1':
                        return p.but(axes=({'N': 'A'}.get(s, s),) + p.axes[1:], term=None)
                    return p.but(axes=(order([s, p.axes[0]]),) + p.axes[1:])
                if isinstance(p, S) and p.axes and p.axes[0] == '1' and self.listlike(node, p is x):
                    return M if p.term and p.term[0] == 'ones' and p.term[1] == 1 else p.but(axes=('',) + p.axes[1:], term=None)
        if isinstance(x, S) and isinstance(y, S):
            if not x.axes and not y.axes:
                return self.numbers(op, x, y, node)
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.FloorDiv, ast.Pow)):
                return self.combine(x, y, node, 'combines')
            return None
        if isinstance(x, S) or isinstance(y, S):
            s, o = (x, y) if isinstance(x, S) else (y, x)
            if isinstance(o, FLit) or o is None:
                if not s.axes:
                    return S(cnt=s.cnt, kind='m' if s.kind == 'm' else '') if isinstance(op, ast.Mult) and isinstance(o, FLit) and o.value == 1 else \
                        S(val=s.val if isinstance(o, FLit) and isinstance(op, (ast.Add, ast.Sub)) and False else '')
                if isinstance(o, FLit) or s.kind not in ('M', 'C'):
                    return s.but(val='', cnt=None, term=None, kind='') if isinstance(o, FLit) else None
        return None

    def listlike(self, node, left):
        e = (node.target if left else node.value) if isinstance(node, ast.AugAssign) else node.left if left else node.right
        if isinstance(e, (ast.List, ast.ListComp)):
            return True
        return isinstance(e, ast.Name) and isinstance(self.env.get(e.id), (Building, S)) and bool(getattr(self.env[e.id], 'made', None))

    def numbers(self, op, x, y, node):
        """numbers: counts multiply; an index times the number of images is where the images of the atom begin"""
        if isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv)):
            s = 1 if isinstance(op, ast.Mult) else -1
            if x.cnt is not None and y.cnt is not None:
                c = dict(x.cnt)
                for k, v in y.cnt.items():
                    c[k] = c.get(k, 0) + s * v
                return S(cnt=spread(c))
            for p, q in ((x, y), (y, x)):
                t = p.term or (('times', p.val, ()) if p.val else None)
                if t and t[0] == 'times' and q.cnt is not None and (p is x or s > 0):
                    c = dict(t[2])
                    for k, v in q.cnt.items():
                        c[k] = c.get(k, 0) + s * v
                    return S(term=('times', t[1], tuple(sorted(spread(c).items()))))
            return S()
        if isinstance(op, ast.Add):
            terms = []
            for p in (x, y):
                t = p.term or (('times', p.val, ()) if p.val else None)
                if t is None or t[0] != 'times':
                    return S()
                terms.append(t)
            return self.composed(terms, node)
        if isinstance(op, ast.Mod) and y.cnt is not None and x.val in ('N', 'A'):
            return S(val='i') if space_of(y.cnt) == 'i' else S()
        return S()

    def composed(self, terms, node):
        """index of an atom of the supercell from the index of the atom in the cell and the number of its image"""
        atom = [t for t in terms if t[1] == 'n']
        image = [t for t in terms if t[1] in ('i', 'N', 'J', 'A')]
        if not atom and len(image) == 1 and not image[0][2] and any(t[1] == 'F' and dict(t[2]) == {'i': 1} for t in terms):
            self.an.bad('index', self, node, 'takes the place of an atom in the file for its number in the unit cell')
        if len(atom) != 1 or len(image) != 1:
            return S()
        ca, ci = dict(atom[0][2]), dict(image[0][2])
        if ca == {'i': 1} and not ci:
            self.an.ok('index', self, node)
            return S(val='N')
        if not ca and ci == {'n': 1} or ca == {'n': 1} and not ci:
            self.an.bad('index', self, node, 'puts the images in another order than all the images of each atom in turn')
        return S()

    def combine(self, x, y, node, verb):
        if '*' in x.axes or '*' in y.axes:
            return S(x.axes) if x.axes == y.axes else S(('*',))
        n = max(len(x.axes), len(y.axes))
        p = ('',) * (n - len(x.axes)) + x.axes
        q = ('',) * (n - len(y.axes)) + y.axes
        out = []
        for i, j in zip(p, q):
            if i in ATOMS and j in ATOMS:
                if clash(i, j):
                    self.an.bad('combine', self, node, '%s arrays over the %s and over the %s' % (verb, NAMES[i], NAMES[j]))
                    return None
                self.an.ok('combine', self, node)
            out.append(meet(i, j))
        return S(tuple(out))

    # ---- calls
    def call(self, e):
        an = self.an
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'extend') and len(e.args) == 1:
            v = self.arr(self.ev(e.args[0]))
            if isinstance(f.value, ast.Name):
                if f.attr == 'append':
                    self.extend(f.value.id, None if self.loops_since(f.value.id) else '', v)
                else:
                    self.extend(f.value.id, v.axes[0] if isinstance(v, S) and v.axes else '', v.but(axes=v.axes[1:]) if isinstance(v, S) and v.axes else None)
            return None
        star = any(isinstance(x, ast.Starred) for x in e.args)
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        args = [self.ev(x.value if isinstance(x, ast.Starred) else x) for x in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        recv = self.ev(f.value) if isinstance(f, ast.Attribute) else None
        if name in INIT and not star:
            for k, u in INIT[name].items():
                v = self.arr(kw.get(k))
                if isinstance(v, S):
                    self.given(name, k, v, u, e)
        fv = self.ev(f)
        callee = PARAMS.get(name)
        if callee and not star and isinstance(fv, Fn) and fv.func is not None:
            ps = fv.func.params()
            ps = ps[1:] if fv.selfv is not None else ps
            for k, v in list(zip(ps, args)) + list(kw.items()):
                v = self.arr(v)
                if k in callee and isinstance(v, S) and callee[k].kind != 'M':
                    self.given(name, k, v, callee[k], e)
        if name in METHODS and isinstance(f, ast.Attribute) and self.trusted(f.value, recv, name):
            sup = kw.get('supercell', args[0] if args and name in EXPANDED else NOTHING)
            for x in e.keywords:
                if x.arg == 'unique' and isinstance(x.value, ast.Constant) and x.value.value:
                    return arr('t')
            if name == 'get_number_of_atoms':
                k = self.of_class(f.value, recv, name)
                if k == {'Dynamics'}:
                    return S(cnt=dict(COUNT['N']))
                return S(cnt=dict(COUNT['n'])) if k == {'Structure'} and not self.made_here(f.value) else S()
            return METHODS[name][0 if sup is NOTHING else 1]
        if name == 'average_positions' and isinstance(f, ast.Attribute):
            t = next((k.value for k in e.keywords if k.arg == 'to_unit_cell'), None)
            return arr('N', '') if t is None else arr('n', '') if isinstance(t, ast.Constant) and t.value else None
        if isinstance(fv, Fn):
            if fv.func is not None and name in FUNCS:
                return FUNCS[name]
            if star:
                return None
            if fv.func is not None:
                return an.function(fv.func, args, fv.selfv, kw)
            return an.function(None, args, None, kw, env=fv.env, node=fv.node, mod=fv.mod, cls=fv.cls)
        if name in FUNCS:
            return FUNCS[name]
        if isinstance(fv, Ext):
            return self.external(fv.dotted, args, kw, e, star)
        if isinstance(f, ast.Attribute):
            if name in ('format', 'join'):
                for v, x in zip(args, e.args):
                    self.written(v, x)
                return None
            recv = self.arr(recv)
            if isinstance(recv, S):
                return self.external('numpy.' + name, [recv] + args, kw, e, star)
        return None

    def loops_since(self, name):
        o = self.env.get(name)
        d = o.depth if isinstance(o, Building) else o.made[0] if isinstance(o, S) and o.made else None
        return d is not None and len(self.loops) > d

    def given(self, name, k, v, u, e):
        if fits(v, u):
            if any(a in ATOMS for a in v.axes):
                self.an.ok('argument', self, e)
        else:
            self.an.bad('argument', self, e, '%s of %s is %s, it takes %s' % (k, name, show(v), show(u)))

    def of_class(self, node, recv, name):
        """names of the classes the object whose getter is called may have"""
        if isinstance(recv, Self):
            m = recv.cls.lookup(self.an.prog, 'methods', name)
            return {m.cls.name} if m is not None else set()
        if isinstance(node, ast.Attribute) and node.attr == 'structure':
            return {'Structure'}
        if isinstance(node, ast.Attribute) and node.attr == 'dynamic':
            return {'Dynamics'}
        names = {c.name for c in self.an.classes() if name in c.methods}
        if len(names) == 1 or not isinstance(node, ast.Name):
            return names
        top = node
        while getattr(top, '_parent', None) is not None and not isinstance(top, ast.FunctionDef):
            top = top._parent
        used = {n.attr for n in ast.walk(top) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == node.id}
        fit = {c.name for c in self.an.classes() if all(u in c.methods or u in c.getters or u in self.an.instance(c) for u in used)}
        return fit & names

    def made_here(self, node):
        """the structure is made in this function: whether it has a supercell is not known"""
        if isinstance(node, ast.Name):
            for n in own(self.node) if isinstance(self.node, ast.FunctionDef) else ():
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in n.targets) and isinstance(n.value, ast.Call):
                    return True
        return False

    def written(self, v, node):
        """a value that is printed"""
        v = self.arr(v)
        if isinstance(v, S) and v.kind == 'groups' and self.poscar():
            self.an.bad('runs', self, node, 'writes the numbers of atoms of each element as if the atoms of an element were all together')
        elif isinstance(v, S) and v.kind == 'runs' and self.poscar():
            self.an.ok('runs', self, node)

    def poscar(self):
        """the function writes a POSCAR: a list of elements, the lengths of their groups, and the positions in order"""
        n = self.an.stack[0] if self.an.stack else None
        return n is not None and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and ('Direct' in x.value or 'Cartesian' in x.value)
                                     for x in ast.walk(n))

    def external(self, dotted, args, kw, e, star=False):
        last = dotted.split('.')[-1]
        an = self.an
        if last == 'product' and args:
            if star and isinstance(args[0], Ranges):
                return Cells(args[0].rev)
            ms = [x for x in args if isinstance(x, S)]
            if len(ms) == len(args) == 3 and all(x.axes for x in ms):
                d = [x.axes[0] for x in ms]
                if d == ['i2', 'i1', 'i0']:
                    return Cells(True)
                if d == ['i0', 'i1', 'i2']:
                    return Cells(False)
            if len(ms) == len(args):
                return Iter([self.element(x) for x in ms], order([x.axes[0] if x.axes else '' for x in ms]))
            return None
        if last == 'ndindex':
            if star and isinstance(args[0], S) and args[0].kind == 'M' or args and isinstance(args[0], S) and args[0].kind == 'M':
                return Cells(args[0].rev)
            return None
        xs = [self.arr(x) for x in args]
        x = xs[0] if xs else None
        if any(isinstance(v, S) and '*' in v.axes for v in xs) and last not in SAME and last not in ('len', 'enumerate', 'zip', 'list', 'tuple', 'unique', 'append', 'str', 'set', 'dot', 'matmul'):
            return None
        if last in ('dot', 'matmul') and any(isinstance(v, S) and '*' in v.axes for v in xs):
            return None
        if last in ('range', 'xrange', 'arange'):
            y = xs[-1] if len(xs) < 3 else xs[1] if len(xs) == 3 else None
            if isinstance(x, S) and x.kind == 'm' and len(xs) == 1:
                return S(('',), kind='m-range')
            if isinstance(y, S) and not y.axes and y.cnt is not None:
                l = space_of(y.cnt)
                l = 'A' if l == 'N' else l
                return S((l if len(xs) == 1 else '',), val=l)
            return S(('',))
        if last == 'len':
            if isinstance(x, S) and x.axes:
                return S(cnt=COUNT.get(x.axes[0]), term=('len', x.axes[0]) if x.axes[0] else None)
            return S()
        if last == 'enumerate':
            v = args[0] if args else None
            return Iter([S(val=self.space(v)), self.element(v)], self.space(v))
        if last == 'zip':
            spaces = [self.space(v) for v in args]
            known = {s for s in spaces if s in ATOMS}
            if any(clash(p, q) for p in known for q in known):
                an.bad('combine', self, e, 'goes through %s together' % ' and '.join(sorted(NAMES[s] for s in known)))
                return None
            if known and sum(s in ATOMS for s in spaces) > 1:
                an.ok('combine', self, e)
            return Iter([self.element(v) for v in args], (sorted(known - {'A'}) + sorted(known) + [''])[0])
        if last == 'reversed' and isinstance(x, S):
            return x.but(rev=not x.rev) if x.kind in ('M', 'C') else x.but(axes=('',) + x.axes[1:])
        if last == 'prod' and isinstance(x, S) and x.kind == 'M':
            return S(cnt={'i': 1})
        if last == 'repeat' and len(xs) > 1 and isinstance(x, S) and x.axes and isinstance(xs[1], S) and xs[1].cnt is not None and not xs[1].axes:
            return x.but(axes=(order([x.axes[0], space_of(xs[1].cnt)]),) + x.axes[1:], made=None)
        if last == 'tile' and len(xs) > 1 and isinstance(x, S) and x.axes and isinstance(xs[1], S) and xs[1].cnt is not None and not xs[1].axes:
            return x.but(axes=x.axes[:-1] + (order([space_of(xs[1].cnt), x.axes[-1]]),), made=None)
        if last in ('dot', 'matmul', 'inner') and len(xs) > 1:
            for v in xs[:2]:
                if isinstance(v, S) and v.kind == 'C':
                    if v.rev:
                        an.bad('images', self, e, 'the repetitions along the lattice directions are taken in the reverse order')
                    else:
                        an.ok('images', self, e)
            p, q = xs[0], xs[1]
            if isinstance(p, S) and isinstance(q, S) and p.axes and q.axes:
                k = 0 if len(q.axes) == 1 else len(q.axes) - 2
                l, r = p.axes[-1], q.axes[k]
                if clash(l, r):
                    an.bad('combine', self, e, 'contracts an axis of %s with an axis of %s' % (NAMES[l], NAMES[r]))
                    return None
                return S(p.axes[:-1] + q.axes[:k] + q.axes[k + 1:])
            if isinstance(p, S) and p.axes and p.axes[0] in ATOMS and len(p.axes) == 2:
                return S((p.axes[0], ''))
            return None
        if last == 'unique' and isinstance(x, S):
            out = [S((x.val if x.val in ATOMS else 'u',), val=x.val)]
            for k in ('return_index', 'return_inverse', 'return_counts'):
                if k in kw:
                    out.append(S(out[0].axes, val=x.first(), kind='first') if k == 'return_index' else S((x.first(),), val='') if k == 'return_inverse'
                               else S(out[0].axes, kind='groups'))
            return out[0] if len(out) == 1 else Tup(out)
        if last == 'argsort' and isinstance(x, S) and len(x.axes) == 1:
            if x.first() == 'F' and x.val == 'N':
                return arr('N', val='F')
            return S(('',), val=x.first(), kind='perm')
        if last in ('argmin', 'argmax') and isinstance(x, S):
            return S(val=x.first()) if len(x.axes) == 1 and 'axis' not in kw and len(xs) == 1 else None
        if last in ('argwhere', 'flatnonzero', 'nonzero', 'where') and isinstance(x, S) and len(xs) == 1 and len(x.axes) == 1:
            v = S(('',), val=x.first())
            return v if last == 'flatnonzero' else v.but(axes=('', '')) if last == 'argwhere' else Tup([v])
        if last in ('flatten', 'ravel', 'squeeze') and isinstance(x, S):
            return S(('',), val=x.val) if not any(x.axes) else x if len(x.axes) == 1 else None
        if last in ('sort', 'sorted', 'union1d') and isinstance(x, S) and len(x.axes) == 1:
            return S(('',), val=x.val, kind='first' if x.kind == 'first' else '')
        if last in ('concatenate', 'hstack') and args and isinstance(args[0], Tup) and args[0].items:
            y = self.arr(args[0].items[0])
            if isinstance(y, S) and y.axes and 'axis' not in kw:
                return S(('',) + y.axes[1:], val=y.val, kind=y.kind)
            return None
        if last == 'append' and len(xs) > 1 and isinstance(x, S):
            return x.but(axes=('',) + x.axes[1:], made=None)
        if last == 'diff' and isinstance(x, S):
            if x.kind == 'first':
                return S(('',), kind='groups')
            return S(('',), kind='runs' if x.val in ATOMS else '')
        if last in ('sum', 'mean', 'average', 'max', 'min', 'std', 'amax', 'amin', 'norm', 'all', 'any') and isinstance(x, S):
            ax = kw.get('axis', xs[1] if len(xs) > 1 and last != 'norm' else None)
            if isinstance(ax, FLit) and isinstance(ax.value, int) and -len(x.axes) <= ax.value < len(x.axes):
                n = ax.value % len(x.axes)
                return S(x.axes[:n] + x.axes[n + 1:])
            return S() if ax is None and 'axis' not in kw else None
        if last == 'sum' and args and not isinstance(args[0], S):
            return None
        if last in ('zeros', 'empty', 'ones', 'full') and args:
            sh = args[0]
            if isinstance(sh, Tup) and all(isinstance(v, (S, FLit)) or v is None for v in sh.items):
                return S(tuple({'N': 'A'}.get(space_of(v.cnt), space_of(v.cnt)) if isinstance(v, S) and v.cnt is not None and space_of(v.cnt) in ATOMS else '' for v in sh.items))
            return None
        if last in ('zeros_like', 'empty_like', 'ones_like') and isinstance(x, S):
            return S(tuple('A' if a in ('N', 'F', 'W') else a for a in x.axes))
        if last == 'set':
            return None
        if last in ('str', 'int', 'float', 'complex'):
            if last == 'str' and e.args:
                self.written(args[0], e.args[0])
            return x.but() if last in ('int', 'float') and isinstance(x, S) and not x.axes else None
        if last in ('map',) and len(args) == 2:
            return args[1] if isinstance(args[1], S) else None
        if last == 'take' and len(xs) > 1 and isinstance(x, S) and isinstance(xs[1], S) and x.axes and xs[1].val in ATOMS and x.axes[0] in ATOMS \
                and (len(x.axes) == 1 or isinstance(kw.get('axis'), FLit) and kw['axis'].value == 0):
            if clash(xs[1].val, x.axes[0]):
                an.bad('index', self, e, 'an axis of %s is indexed with an index of %s' % (NAMES[x.axes[0]], NAMES[xs[1].val]))
                return None
            an.ok('index', self, e)
            return S(xs[1].axes + x.axes[1:], val=x.val)
        if last == 'list' and isinstance(args[0] if args else None, (Cells, Iter)):
            return args[0]
        if last in ('list', 'tuple') and not args:
            return Tup([])
        if last in ('multiply', 'add', 'subtract', 'divide', 'true_divide') and len(xs) > 1:
            op = {'multiply': ast.Mult(), 'add': ast.Add(), 'subtract': ast.Sub()}.get(last, ast.Div())
            if isinstance(x, S) and isinstance(xs[1], S):
                return self.numbers(op, x, xs[1], e) if not x.axes and not xs[1].axes else self.combine(x, xs[1], e, 'combines')
            return None
        if last in SAME and isinstance(x, S):
            return x.but(made=None)
        if last in SAME and isinstance(args[0] if args else None, Building):
            return S(('',))
        return None


def built(body):
    """the loop fills lists: its body is taken to run"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') or
               isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) for s in body for n in ast.walk(s))


def analyse(prog):
    an = Analysis(prog)
    n = 0
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        an.function(f)
        n += 1
    for m in prog.scripts.values():
        fr = Frame(an, {}, m, None, m.name)
        fr.node = m.tree
        an.names.append(m.name)
        fr.block(m.tree.body)
        an.names.pop()
        n += 1
    return an, n


# ---- numbers of the images
class Dg:
    """(i % m) // w, with m and w products of the sizes of the supercell (exponents)"""
    def __init__(self, m, w):
        self.m, self.w = m, w

    def key(self):
        return self.m, self.w


ONE, ALL = (0, 0, 0), (1, 1, 1)
WANT = [((1, 0, 0), ONE), ((1, 1, 0), (1, 0, 0)), (ALL, (1, 1, 0)), (None, ALL)]


class Digits:
    """the numbers of an image along the three directions, from its place in the common order"""
    def __init__(self, f):
        self.f = f
        self.env = {}
        ps = f.params()
        if len(ps) == 2:
            self.env = {ps[0]: Dg(None, ONE), ps[1]: 'sizes'}

    def ev(self, e):
        if isinstance(e, ast.Constant) and e.value == 1:
            return ONE
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return e.value
        if isinstance(e, ast.Name):
            return self.env.get(e.id)
        if isinstance(e, (ast.Tuple, ast.List)):
            return [self.ev(x) for x in e.elts]
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                k = e.slice
                lit = [None if x is None else 1 if self.ev(x) == ONE else self.ev(x) for x in (k.lower, k.upper)]
                if k.step is not None:
                    if isinstance(k.step, ast.UnaryOp) and k.lower is None and k.upper is None and v == 'sizes':
                        return 'reversed'
                    return v[::-1] if isinstance(v, list) and isinstance(k.step, ast.UnaryOp) and k.lower is None and k.upper is None else None
                if all(x is None or isinstance(x, int) for x in lit):
                    if isinstance(v, list):
                        return v[lit[0]:lit[1]]
                    if v == 'sizes':
                        r = tuple(1 if k in range(*slice(lit[0], lit[1]).indices(3)) else 0 for k in range(3))
                        return ('part', r)
                return None
            i = self.ev(e.slice)
            i = 1 if i == ONE else i
            if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub):
                i = self.ev(e.slice.operand)
                i = -1 if i == ONE else -i if isinstance(i, int) else None
            if isinstance(i, int) and v in ('sizes', 'reversed') and -3 <= i < 3:
                i = i % 3 if v == 'sizes' else 2 - i % 3
                return tuple(1 if k == i else 0 for k in range(3))
            if isinstance(v, list) and isinstance(i, int) and -len(v) <= i < len(v):
                return v[i]
            return None
        if isinstance(e, ast.BinOp):
            return self.op(e.op, self.ev(e.left), self.ev(e.right))
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            a = [self.ev(x) for x in e.args]
            if n in ('array', 'asarray', 'int', 'tuple', 'list', 'stack', 'hstack') and a:
                return a[0]
            if n in ('mod', 'remainder') and len(a) == 2:
                return self.op(ast.Mod(), *a)
            if n in ('floor_divide',) and len(a) == 2:
                return self.op(ast.FloorDiv(), *a)
            if n == 'divmod' and len(a) == 2:
                return [self.op(ast.FloorDiv(), *a), self.op(ast.Mod(), *a)]
            if n in ('prod', 'product') and a:
                return ALL if a[0] in ('sizes', 'reversed') else a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'part' else None
            if n == 'unravel_index' and len(a) == 2 and isinstance(a[0], Dg) and a[0].key() == (None, ONE) and a[1] in ('sizes', 'reversed'):
                if a[1] == 'reversed':
                    return [Dg(*k) for k in WANT[:3]][::-1]
                return [Dg(ALL, (0, 1, 1)), Dg((0, 1, 1), (0, 0, 1)), Dg((0, 0, 1), ONE)]
            return None
        return None

    def op(self, op, x, y):
        mono = lambda v: isinstance(v, tuple) and len(v) == 3 and all(isinstance(k, int) for k in v)
        if isinstance(op, ast.Mult) and mono(x) and mono(y):
            return tuple(a + b for a, b in zip(x, y))
        if isinstance(op, ast.FloorDiv) and mono(x) and mono(y) and all(a >= b for a, b in zip(x, y)):
            return tuple(a - b for a, b in zip(x, y))
        if isinstance(x, Dg) and mono(y):
            if isinstance(op, ast.Mod):
                m = tuple(a + b for a, b in zip(x.w, y))
                if x.m is None or all(a <= b for a, b in zip(m, x.m)):
                    return Dg(m, x.w)
            if isinstance(op, ast.FloorDiv):
                return Dg(x.m, tuple(a + b for a, b in zip(x.w, y)))
        return None

    def run(self):
        """list of what is returned, or None"""
        if not self.env:
            return None
        out = None
        for s in self.f.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t, v = s.targets[0], self.ev(s.value)
                if isinstance(t, ast.Name):
                    self.env[t.id] = v
                elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
                    ok = isinstance(v, list) and len(v) == len(t.elts)
                    sizes = v in ('sizes', 'reversed') and len(t.elts) == 3
                    for k, x in enumerate(t.elts):
                        k2 = k if v == 'sizes' else 2 - k
                        self.env[x.id] = v[k] if ok else tuple(1 if j == k2 else 0 for j in range(3)) if sizes else None
                else:
                    return None
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.env[s.target.id] = self.op(s.op, self.env.get(s.target.id), self.ev(s.value))
            elif isinstance(s, ast.Return) and s.value is not None:
                out = self.ev(s.value)
                return (out, s) if isinstance(out, list) else None
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            else:
                return None
        return None


def digits(prog):
    """(function, statement, True / False / None, text)"""
    out = []
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda) or f.cls is not None or len(f.params()) != 2:
            continue
        if not any(isinstance(n, (ast.Mod, ast.FloorDiv)) for n in ast.walk(f.node)) and \
                not any(isinstance(n, ast.Attribute) and n.attr in ('mod', 'unravel_index', 'remainder') for n in ast.walk(f.node)):
            continue
        r = Digits(f).run()
        if r is None or len(r[0]) < 3 or not any(isinstance(x, Dg) for x in r[0]):
            continue
        vals, s = r
        if any(not isinstance(x, Dg) for x in vals[:3]):
            out.append((f, s, None, 'the numbers of the images are not recognized'))
            continue
        bad = [i for i, (x, w) in enumerate(zip(vals, WANT)) if isinstance(x, Dg) and x.key() != w]
        if not bad:
            out.append((f, s, True, ''))
        elif all(vals[i].w == WANT[i][1] and vals[i].m is None for i in bad):
            out.append((f, s, None, 'numbers of images are not limited to the supercell'))
        else:
            out.append((f, s, False, 'component %d is not the number of the image along direction %d when the first direction is the fastest'
                        % (bad[0], bad[0])))
    return out


# ---- reordering of what is read
def closure(fn, exprs):
    """nodes the values of the expressions depend on, in the function (names only, in any order)"""
    defs = {}
    local = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(n)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    defs.setdefault(x.id, []).append(n.iter)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in local:
            defs.setdefault(n.func.value.id, []).append(n)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    for x in ast.walk(i.optional_vars):
                        if isinstance(x, ast.Name):
                            defs.setdefault(x.id, []).append(i.context_expr)
        elif isinstance(n, ast.FunctionDef) and n is not fn:
            defs.setdefault(n.name, []).append(n)
    seen, todo, names = set(), list(exprs), set()
    while todo:
        e = todo.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id not in names:
                names.add(x.id)
                todo += defs.get(x.id, ())
    return names


def reordered(prog):
    """(function, call, keyword, whether what is read is put in the order of the supercell)"""
    out = []
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda) or f.parent is not None:
            continue
        t = set()
        if 'template' in f.params():
            t.add('template')
        for n in own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                fn = n.value.func
                name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
                if name in ('get_correct_arrangement', 'check_atoms_order'):
                    t |= {x.id for y in n.targets for x in ast.walk(y) if isinstance(x, ast.Name)}
        if not t:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) == 'Dynamics':
                for k in n.keywords:
                    if k.arg in ('trajectory', 'velocity', 'scaled_trajectory', 'scaled_velocity') and not isinstance(k.value, ast.Constant):
                        out.append((f, n, k, bool(closure(f.node, [k.value]) & t)))
    return out
