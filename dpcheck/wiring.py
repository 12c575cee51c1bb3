"""Settings reach the library functions that act on them (a dataflow from the settings object to call arguments)."""
import ast

from .names import dotted
from .options import Flow

# (called functions, parameter) -> (setting, methods whose calls are exempt)
WIRES = [
    (('obtain_phonon_dispersion_bands', 'obtain_phonopy_dos', 'obtain_phonopy_thermal_properties'), 'NAC', 'use_NAC',
     ('get_commensurate_points_data',)),
    (('obtain_phonopy_dos', 'obtain_phonopy_thermal_properties', 'obtain_phonopy_mesh_from_force_constants'), 'mesh', 'mesh_phonopy', ()),
    (('get_renormalized_force_constants',), 'symmetrize', 'symmetrize', ()),
    (('obtain_phonon_dispersion_bands',), 'band_resolution', 'band_resolution', ('plot_phonon_dispersion_bands', 'print_phonon_dispersion_bands')),
    (('obtain_phonopy_dos',), 'projected_on_atom', 'project_on_atom', ('get_commensurate_points_data',)),
    (('obtain_phonopy_dos',), 'freq_pitch', 'spectrum_resolution', ('plot_dos_phonopy', 'get_commensurate_points_data')),
    (('project_onto_wave_vector',), 'project_on_atom', 'project_on_atom', ()),
    (('phonon_fitting_analysis',), 'fitting_function_type', 'fitting_function', ()),
    (('phonon_fitting_analysis',), 'frequencies_to_fit|#1', 'frequency_range', ()),
    (('obtain_eigenvectors_and_frequencies',), 'q_vector', 'reduced_q_vector', ('get_qha_shift',)),
    (('get_equivalent_q_points_by_symmetry',), 'q_point', 'reduced_q_vector', ('get_commensurate_points_data',)),
    (('correlation_par',), 'step', 'correlation_function_step', ()),
    (('correlation_par',), 'integration_method', 'integration_method', ()),
    (('correlation_par',), '#0', 'frequency_range', ()),
    (('mem',), 'coefficients', 'number_of_coefficients_mem', ('mem_coefficient_scan_analysis',)),
    (('mem',), '#0', 'frequency_range', ()),
    (('plot_phonon_modes',), 'vectors_scale', 'modes_vectors_scale', ()),
    (('PhonopyLegacy', 'Phonopy'), 'symprec', 'symprec', ()),
    (('Symmetry',), 'symprec', 'symprec', ()),
]
FORWARD = {'NAC', 'memmap', 'symprec', 'silent', 'symmetrize', 'band_resolution', 'band_connection', 'mesh', 'project_on_atom',
           'projected_on_atom', 'fitting_function_type', 'template', 'time_step', 'zero_padding', 'show_plots', 'with_linewidths'}


def idle(n):
    """the node stands under `if False` or under a test of __name__ (a demonstration)"""
    c, p = n, getattr(n, '_parent', None)
    while p is not None:
        if isinstance(p, ast.If) and any(c is b for b in p.body):
            t = p.test
            if isinstance(t, ast.Constant) and not t.value:
                return True
            if any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(t)):
                return True
        c, p = p, getattr(p, '_parent', None)
    return False


class Wiring:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = {}
        self.of = {}
        for f in prog.functions():
            if not isinstance(f.node, ast.Lambda):
                self.funcs.setdefault(f.name, []).append(f)
                self.of[id(f.node)] = f
        self.callers = {}
        self.sites = []
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    name = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
                    if name is None:
                        continue
                    s = Flow.scope(n)
                    self.sites.append((name, n, m, s))
                    self.callers.setdefault(name, []).append((n, m, s))

    def exempt(self, s, names, seen=()):
        """every way to the function goes through an exempt method"""
        if not isinstance(s, ast.FunctionDef):
            return False
        if s.name in names:
            return True
        if s.name in seen or not names:
            return False
        cs = self.callers.get(s.name, [])
        return bool(cs) and all(self.exempt(c[2], names, seen + (s.name,)) for c in cs)

    def reaches(self, e, s, setting, depth=0):
        """True: may hold the setting; False: certainly does not; None: unknown"""
        if depth > 6:
            return None
        res = False
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr.lstrip('_') == setting:
                return True
            if isinstance(n, ast.Constant) and n.value == setting:
                return True
            r = False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.name(n, s, setting, depth)
            elif isinstance(n, ast.Call):
                d = dotted(n.func)
                name = d.split('.')[-1] if d else None
                if name in self.funcs:
                    for g in self.funcs[name][:3]:
                        for x in ast.walk(g.node):
                            if isinstance(x, ast.Return) and x.value is not None:
                                v = self.reaches(x.value, g.node, setting, depth + 2)
                                if v:
                                    return True
                                if v is None:
                                    r = None
                elif name is None:
                    r = None
            if r:
                return True
            if r is None:
                res = None
        return res

    def name(self, n, s, setting, depth):
        if n.id in ('self', 'np', 'plt'):
            return False
        if not isinstance(s, ast.FunctionDef):
            return None
        res = False
        vs = []
        star = False
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if any(isinstance(y, ast.Name) and y.id == n.id for y in ast.walk(t)):
                        vs.append(x.value)
            elif isinstance(x, (ast.For, ast.comprehension)):
                if any(isinstance(y, ast.Name) and y.id == n.id for y in ast.walk(x.target)):
                    vs.append(x.iter)
            elif isinstance(x, ast.NamedExpr) and x.target.id == n.id:
                vs.append(x.value)
            elif isinstance(x, ast.With):
                for it in x.items:
                    if it.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == n.id for y in ast.walk(it.optional_vars)):
                        star = True
        for v in vs:
            if any(isinstance(y, ast.Name) and y.id == n.id for y in ast.walk(v)):
                v2 = [y for y in ast.walk(v) if isinstance(y, ast.Attribute) and y.attr.lstrip('_') == setting]
                if v2:
                    return True
                continue
            r = self.reaches(v, s, setting, depth + 1)
            if r:
                return True
            if r is None:
                res = None
        ps = [a.arg for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs]
        if n.id in ps:
            r = self.param(s, n.id, setting, depth)
            if r:
                return True
            if r is None:
                res = None
        elif not vs and isinstance(s._parent, ast.FunctionDef):
            return self.name(n, s._parent, setting, depth + 1)
        elif not vs:
            return None if star or s.args.kwarg or s.args.vararg else False
        return res

    def param(self, s, p, setting, depth):
        ps = [a.arg for a in s.args.posonlyargs + s.args.args]
        skip = 1 if ps and ps[0] == 'self' else 0
        ps = ps[skip:]
        res = False
        for n, m, sc in self.callers.get(s.name, []):
            hit = None
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                return None
            for k in n.keywords:
                if k.arg == p:
                    hit = k.value
            if hit is None and p in ps and ps.index(p) < len(n.args):
                hit = n.args[ps.index(p)]
            if hit is None:
                continue
            r = self.reaches(hit, sc, setting, depth + 1)
            if r:
                return True
            if r is None:
                res = None
        # used as a value somewhere: other callers
        return res


def run(rep, prog):
    w = Wiring(prog)
    for names, param, setting, exempt in WIRES:
        found = 0
        for name, n, m, s in w.sites:
            if name not in names or idle(n):
                continue
            f = w.of.get(id(s)) if isinstance(s, ast.FunctionDef) else None
            # only calls made on behalf of a calculation
            if m.name.startswith('dynaphopy.interface.interactive') or m.name.startswith('scripts'):
                continue
            d = dotted(n.func)
            if d and d.startswith('self.') and name in ('get_renormalized_force_constants',):
                continue
            found += 1
            key = '%s:%s.%s<-%s' % (f.qual if f else m.name, name, param.split('|')[0], setting)
            where = '%s:%d' % (m.rel, n.lineno)
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                rep.skip('wired', where, key)
                continue
            if w.exempt(s, exempt):
                continue
            hit = None
            for pn in param.split('|'):
                for k in n.keywords:
                    if k.arg == pn:
                        hit = k.value
                if hit is None and pn.startswith('#') and int(pn[1:]) < len(n.args):
                    hit = n.args[int(pn[1:])]
            if hit is None and not param.startswith('#'):
                for g in w.funcs.get(name, ())[:4]:
                    ps = g.params()
                    if ps and ps[0] == 'self':
                        ps = ps[1:]
                    for pn in param.split('|'):
                        if pn in ps and ps.index(pn) < len(n.args):
                            hit = n.args[ps.index(pn)]
            if hit is None:
                defined = [g for g in w.funcs.get(name, ()) if param in g.params()]
                if defined or name not in w.funcs and not param.startswith('#') and '|' not in param:
                    rep.bad('wired', key, where, '%s is called without %s: the setting %s has no effect here' % (name, param, setting))
                else:
                    rep.skip('wired', where, key)
                continue
            if isinstance(hit, ast.Constant) and hit.value is None:
                rep.skip('wired', where, key + ' (None)')
                continue
            r = w.reaches(hit, s, setting)
            if r:
                rep.ok('wired', '%s at %s' % (key, where))
            elif r is None:
                rep.skip('wired', where, key)
            else:
                rep.bad('wired', key, where, 'what %s receives as %s does not come from the setting %s' % (name, param.split('|')[0], setting))
    # a function that takes an option by name hands it to the functions it calls that take it too
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda):
            continue
        ps = ({a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}) & FORWARD
        if not ps:
            continue
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call) or idle(c):
                continue
            d = dotted(c.func)
            name = d.split('.')[-1] if d else None
            gs = w.funcs.get(name, [])
            if not gs:
                k = prog.find_class(name) if name else None
                gs = [k.methods['__init__']] if k is not None and '__init__' in k.methods else []
            if len(gs) != 1 or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            q = gs[0].params()
            if q and q[0] == 'self':
                q = q[1:]
            kws = {k.arg for k in c.keywords}
            for p in sorted(ps & set(q)):
                if p in kws or q.index(p) < len(c.args):
                    rep.ok('wired', '%s hands %s to %s' % (f.qual, p, name))
                else:
                    rep.bad('wired', '%s:%s->%s' % (f.qual, p, name), f.where(c), '%s takes %s and does not hand it to %s' % (f.name, p, name))
