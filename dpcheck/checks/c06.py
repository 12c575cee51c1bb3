"""C06: options and input keywords reach the setting or operation they document; settings read back as assigned."""
import ast

from ..model import Program
from ..names import Names, dotted
from ..options import Flow, options
from .. import live, wiring

# what each documented option does: the operation it asks for (call:), the parameter its value becomes (arg:function.parameter)
# or the setting it is stored in (set:).  [i] is the i-th value of the option, '!' its negation.  Alternatives separated by '|'.
SPEC = {
    'dynaphopy': {
        'input_file': ['arg:read_parameters_from_input_file.file_name'],
        'md_file': ['arg:<reader>.file_name', 'arg:get_trajectory_parser.file_name'],
        'load_data': ['arg:initialize_from_hdf5_file.file_name'],
        'interactive': ['call:interactive_interface'],
        'q': ['arg:set_reduced_q_vector.q_vector | set:reduced_q_vector'],
        'frequency_range': ['arg:set_frequency_limits.limits | set:frequency_range'],
        'n': ['arg:Quasiparticle.last_steps'],
        'time_step': ['arg:<reader>.time_step'],
        'plot_full': ['call:plot_power_spectrum_full'],
        'plot_wave_vector': ['call:plot_power_spectrum_wave_vector'],
        'plot_phonon_mode': ['call:plot_power_spectrum_phonon'],
        'save_full': ['arg:write_power_spectrum_full.file_name'],
        'save_wave_vector': ['arg:write_power_spectrum_wave_vector.file_name'],
        'save_phonon_mode': ['arg:write_power_spectrum_phonon.file_name'],
        'save_data': ['arg:save_velocity_hdf5.file_name'],
        'save_vc_hdf5': ['arg:save_vc_hdf5.file_name'],
        'power_spectrum_algorithm': ['arg:select_power_spectra_algorithm.algorithm | set:power_spectra_algorithm'],
        'number_of_mem_coefficients': ['set:number_of_coefficients_mem | arg:set_number_of_mem_coefficients.coefficients'],
        'coefficient_scan_analysis': ['call:phonon_width_scan_analysis'],
        'peak_analysis': ['call:phonon_individual_analysis'],
        'plot_atomic_displacements': ['arg:plot_trajectory_distribution.direction'],
        'save_atomic_displacements': ['arg:write_atomic_displacements.direction', 'arg:write_atomic_displacements.file_name[3]'],
        'save_force_constants': ['arg:write_renormalized_constants.filename'],
        'adp': ['call:get_anisotropic_displacement_parameters'],
        'thm': ['call:display_thermal_properties'],
        'thm_full': ['call:display_thermal_properties.from_power_spectrum=True'],
        'thm_reference': ['arg:display_thermal_properties.print_phonopy'],
        'save_quasiparticle_data': ['call:write_quasiparticles_data'],
        'save_mesh_data': ['call:write_mesh_data'],
        'temperature': ['arg:set_temperature.temperature', 'arg:generate_lammps_trajectory.temperature'],
        'silent': ['set:silent', 'arg:generate_test_trajectory.silent', 'arg:generate_lammps_trajectory.silent'],
        'velocity_only': ['!arg:initialize_from_hdf5_file.read_trajectory', 'arg:generate_lammps_trajectory.velocity_only',
                          '!arg:save_velocity_hdf5.save_trajectory'],
        'fitting_function': ['arg:select_fitting_function.function | set:fitting_function'],
        'read_from': ['arg:initialize_from_hdf5_file.initial_cut', 'arg:<reader>.initial_cut'],
        'read_to': ['arg:initialize_from_hdf5_file.final_cut', 'arg:<reader>.end_cut'],
        'fcsymm': ['set:symmetrize'],
        'symprec': ['set:symprec'],
        'no_symmetry': ['!set:use_symmetry'],
        'save_renormalized_frequencies': ['set:save_renormalized_frequencies'],
        'save_band_structure': ['arg:write_renormalized_phonon_dispersion_bands.filename'],
        'resolution': ['arg:set_spectra_resolution.resolution | set:spectrum_resolution'],
        'dim': ['arg:generate_test_trajectory.supercell', 'arg:generate_lammps_trajectory.supercell',
                'arg:generate_VASP_structure.supercell', 'arg:generate_LAMMPS_structure.supercell'],
        'generate_trajectory': ['arg:generate_test_trajectory.total_time[0]', 'arg:generate_test_trajectory.time_step[1]',
                                'arg:generate_test_trajectory.temperature[2]'],
        'run_lammps': ['arg:generate_lammps_trajectory.commands_file|arg:generate_lammps_trajectory.#1[0]', 'arg:generate_lammps_trajectory.total_time[1]',
                       'arg:generate_lammps_trajectory.time_step[2]', 'arg:generate_lammps_trajectory.relaxation_time[3]'],
        'c_poscar': ['call:generate_VASP_structure', 'arg:open.#0'],
        'c_lammps': ['call:generate_LAMMPS_structure', 'arg:open.#0'],
        'average': ['call:get_average_atomic_positions'],
        'MD_commensurate': ['set:use_MD_cell_commensurate'],
        'normalize_dos': ['arg:display_thermal_properties.normalize_dos'],
        'memmap': ['arg:initialize_from_hdf5_file.memmap', 'arg:<reader>.memmap', 'arg:generate_test_trajectory.memmap',
                   'arg:generate_lammps_trajectory.memmap'],
        'qha_force_constants': ['arg:set_qha_force_constants.fc_qha_file'],
        'auto_order': ['call:check_atoms_order'],
        'project_on_atom': ['arg:set_projection_onto_atom_type.atom_type | set:project_on_atom'],
        'save_power_spectrum_partials': ['arg:get_power_spectrum_partials.save_to_file'],
        'nac': ['set:use_NAC | arg:set_NAC.NAC'],
        'save_vq': ['arg:save_vq.file_name'],
        'save_vc': ['arg:save_vc.file_name[0]', 'arg:save_vc.atom[1]'],
        'save_extra_properties': ['arg:write_quasiparticles_data.with_extra'],
    },
    'rfc_calc': {
        'input_file': ['arg:read_parameters_from_input_file.file_name'],
        'cp': ['call:get_commensurate_points'],
        'frequency_file': ['arg:open.#0'],
        'p': ['call:obtain_phonon_dispersion_bands'],
        's': ['arg:save_force_constants_to_file.filename'],
        'fcsymm': ['arg:get_renormalized_force_constants.symmetrize'],
        'dim': ['arg:get_commensurate_points.fc_supercell', 'arg:get_renormalized_force_constants.fc_supercell'],
    },
    'qha_extract': {
        'input_file': ['arg:read_parameters_from_input_file.file_name'],
        'fc': ['arg:get_force_constants_from_file.file_name'],
        'tp': ['arg:open.#0'],
        'ev': ['arg:loadtxt.#0|arg:open.#0|arg:genfromtxt.#0'],
        't': ['arg:fit_vt.#0'],
        'p': ['call:plot_qha'],
        'sfc': ['arg:write_FORCE_CONSTANTS.filename'],
    },
    'fitdata': {
        'file': ['arg:open.#0|arg:loadtxt.#0|arg:genfromtxt.#0'],
        'smooth': ['call:loess'],
        'f': ['arg:loess.f'],
        's': ['arg:write_curve_to_file.file_name'],
        'silent': ['!arg:phonon_fitting_analysis.show_plots'],
        'fitting_function': ['arg:phonon_fitting_analysis.fitting_function_type'],
    },
    'concath5': {
        'input': ['arg:File.#0'],
        'output': ['arg:File.#0'],
        'f': [],
        'velocity_only': [],
    },
}


class Sinks:
    """the sinks that option values reach in one script"""

    def __init__(self, flow, prog, mod):
        self.flow = flow
        self.prog = prog
        self.mod = mod
        self.arg = {}        # (function, parameter or '#i') -> set of origins
        self.vague = set()   # functions called with arguments that could not be matched
        self.called = {}     # function -> [(call, control)]
        self.sets = {}       # attribute -> set of origins (values), and control origins of constant stores
        self.names = set()   # every attribute, name and string mentioned (for tables of operations)
        self.opaque_set = False
        self.collect()

    def readers(self, call):
        """the trajectory readers, when the callee is a variable holding what get_trajectory_parser gave"""
        f = call.func
        if isinstance(f, ast.Name):
            s = self.flow.scope_of_name(f, f.id)
            if s is None:
                return False
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == f.id for t in n.targets) and \
                        isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'get_trajectory_parser':
                    return True
            # parameter of a helper
            if isinstance(s, ast.FunctionDef):
                for c, m in self.flow.calls:
                    g = self.flow.target(c)
                    if g and g[0] is s:
                        for p, v in self.flow.bind(c, s, 0):
                            if p == f.id and self.readers(ast.Call(func=v, args=[], keywords=[])):
                                return True
        if isinstance(f, ast.Call):
            return (dotted(f.func) or '').split('.')[-1] == 'get_trajectory_parser'
        return False

    def params(self, name, call):
        if name == '<reader>':
            out = None
            m = self.prog.modules.get('dynaphopy.interface.iofile.trajectory_parsers')
            r = self.prog.modules.get('dynaphopy.interface.iofile')
            f = r.funcs.get('get_trajectory_parser') if r else None
            if f is None:
                return None
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    nm = (dotted(n) or '').split('.')[-1]
                    if m is not None and nm in m.funcs:
                        ps = m.funcs[nm].params()
                        if out is None:
                            out = ps
                        elif out != ps:
                            k = 0
                            while k < min(len(out), len(ps)) and out[k] == ps[k]:
                                k += 1
                            out = out[:k]
            return out
        c = self.prog.find_class(name)
        if c is not None and '__init__' in c.methods:
            return c.methods['__init__'].params()[1:]
        if call is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, (ast.Name, ast.Attribute)):
            d = dotted(call.func)
            r = self.mod.resolve(d.split('.')[0]) if d else None
            for part in (d.split('.')[1:] if d else ()):
                r = self.prog.module_attr(r[1], part) if r and r[0] == 'module' else None
            if r and r[0] == 'func':
                return r[1].params()
        cands = self.flow.funcs.get(name, [])
        own = [x for x in cands if x[1] is self.mod]
        if own:
            cands = own
        if not cands:
            return None
        ps = None
        for fn, m in cands:
            q = [a.arg for a in fn.args.posonlyargs + fn.args.args]
            if q and q[0] in ('self', 'cls') and isinstance(fn._parent, ast.ClassDef):
                q = q[1:]
            if ps is None:
                ps = q
            elif ps != q:
                return None
        return ps

    def kwdict(self, e):
        """{key: expr} of a ** argument"""
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return {k.value: v for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.Call) and dotted(e.func) == 'dict' and not e.args and all(k.arg for k in e.keywords):
            return {k.arg: k.value for k in e.keywords}
        if isinstance(e, ast.Name):
            s = self.flow.scope_of_name(e, e.id)
            if s is None:
                return None
            vs = [n.value for n in ast.walk(s) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(vs) == 1 and not isinstance(vs[0], ast.Name):
                return self.kwdict(vs[0])
        return None

    def collect(self):
        fl = self.flow
        for m, s in fl.scopes.values():
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute):
                    if not (isinstance(n._parent, ast.Call) and n._parent.func is n):
                        self.names.add(n.attr)
                elif isinstance(n, ast.Name):
                    if not (isinstance(n._parent, ast.Call) and n._parent.func is n):
                        self.names.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.names.add(n.value)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            self.store(t.attr, n.value, n)
                if isinstance(n, ast.Call):
                    if dotted(n.func) == 'setattr' and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            self.store(n.args[1].value, n.args[2], n)
                        else:
                            self.opaque_set = True
                    self.one(n)

    def store(self, attr, v, node):
        if isinstance(v, ast.Constant) and isinstance(v.value, bool):
            c = fl_flip(self.flow.control(node), v.value)
        else:
            c = set(self.flow.origins(v))
        self.sets.setdefault(attr, set()).update(c)

    def one(self, n):
        fl = self.flow
        d = dotted(n.func)
        name = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
        if self.readers(n):
            name = '<reader>'
        if name is None:
            return
        ctl = fl.control(n)
        self.called.setdefault(name, []).append((n, ctl))
        ps = self.params(name, n)
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred):
                o = fl.origins(a.value)
                for k in range(8):
                    self.add(name, '#%d' % (i + k), {(x, k, p) for x, j, p in o if j is None})
                    if ps and i + k < len(ps):
                        self.add(name, ps[i + k], {(x, k, p) for x, j, p in o if j is None})
                break
            o = fl.origins(a)
            if isinstance(a, ast.Constant) and isinstance(a.value, bool):
                o = frozenset(fl_flip(ctl, a.value))
            self.add(name, '#%d' % i, o)
            if ps is not None and i < len(ps):
                self.add(name, ps[i], o)
            elif ps is None:
                self.vague.add(name)
        for k in n.keywords:
            if k.arg is None:
                dd = self.kwdict(k.value)
                if dd is None:
                    self.vague.add(name)
                    continue
                for key, v in dd.items():
                    self.kw(name, key, v, ps, ctl)
            else:
                self.kw(name, k.arg, k.value, ps, ctl)

    def kw(self, name, key, v, ps, ctl):
        o = self.flow.origins(v)
        if isinstance(v, ast.Constant) and isinstance(v.value, bool):
            o = frozenset(fl_flip(ctl, v.value))
            self.add(name, '%s=%s' % (key, v.value), {(d, i, p) for d, i, p in ctl})
        else:
            self.add(name, '%s=True' % key, o)
            self.add(name, '%s=False' % key, fl_flip(o, False))
        self.add(name, key, o)
        if ps and key in ps:
            self.add(name, '#%d' % ps.index(key), o)

    def add(self, name, p, o):
        self.arg.setdefault((name, p), set()).update(o)


def fl_flip(o, keep):
    if keep:
        return set(o)
    return {(d, i, {'+': '-', '-': '+'}.get(p, p)) for d, i, p in o}


def exists(prog, sinks, name):
    if name == '<reader>' or name in sinks.flow.funcs or prog.find_class(name) is not None:
        return True
    return False


def sink_state(sp, dest, opt, sinks, prog, settings):
    """'ok' | 'missing' | 'undecided'"""
    neg = sp.startswith('!')
    sp = sp.lstrip('!').strip()
    kind, rest = sp.split(':', 1)
    want = None
    if rest.endswith(']'):
        rest, want = rest[:-1].split('[')
        want = int(want)
    elif opt.count == 1:
        want = 0
    pols = ('-', '?', '*') if neg else ('+', '?', '*')

    def hit(o, control=False):
        for d, i, p in o:
            if d == dest and p in pols and (control or i == want or (want is None and (isinstance(i, str) or opt.count is None or opt.count > 1)) or i == '?' or isinstance(i, str) and want is None):
                return True
            if d == dest and p in pols and want is not None and isinstance(i, str) and ':' in i:
                return True
        return False

    if kind == 'set':
        if rest in sinks.sets and hit(sinks.sets[rest]) or '_' + rest in sinks.sets and hit(sinks.sets['_' + rest]):
            return 'ok'
        if sinks.opaque_set or rest not in settings:
            return 'undecided'
        return 'missing'
    if kind == 'call':
        param = None
        if '.' in rest:
            rest, param = rest.split('.', 1)
            if hit(sinks.arg.get((rest, param), ()), True):
                return 'ok'
            if not exists(prog, sinks, rest) or rest in sinks.vague or rest in sinks.names:
                return 'undecided'
            return 'missing'
        for c, ctl in sinks.called.get(rest, []):
            if hit(ctl, True):
                return 'ok'
        # called from a helper function of the package that the option controls?
        if rest in sinks.names:
            return 'undecided'
        if rest not in sinks.called and not exists(prog, sinks, rest):
            return 'undecided'
        return 'missing'
    fn, param = rest.rsplit('.', 1)
    if hit(sinks.arg.get((fn, param), ())):
        return 'ok'
    if fn in sinks.vague and not param.startswith('#'):
        return 'undecided'
    if param.startswith('#'):
        if fn in sinks.names and fn not in sinks.called:
            return 'undecided'
        return 'missing'
    if not exists(prog, sinks, fn):
        return 'undecided'
    ps = sinks.params(fn, None)
    if ps is None:
        ps = [a.arg for x, _ in sinks.flow.funcs.get(fn, ()) for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs]
    if param not in ps:
        return 'undecided'
    if fn not in sinks.called and fn in sinks.names:
        return 'undecided'
    return 'missing'


def effective(node):
    """a read of an option that can have an effect"""
    c, p = node, node._parent
    while p is not None:
        if isinstance(p, ast.Expr):
            return not (c is p.value and not any(isinstance(x, ast.Call) for x in ast.walk(c)))
        if isinstance(p, ast.If) and c is p.test:
            return any(not isinstance(s, ast.Pass) for s in p.body + p.orelse)
        if isinstance(p, ast.stmt):
            return True
        c, p = p, getattr(p, '_parent', None)
    return True


def run(rep):
    prog = Program()
    rep.rule('used', 'every option the tools accept is read and can have an effect')
    rep.rule('option', 'every option reaches the operation, parameter or setting it documents')
    rep.rule('shape', 'an option is indexed only when it takes several values, and within them')
    rep.rule('stored', 'a setting is stored under a name that exists and that something reads')
    rep.rule('pair', 'a setting read back is the value last assigned')
    rep.rule('keyword', 'every input-file keyword stores one key of its own, and the key is read')
    rep.rule('peek', 'a line read only to be measured is read again with the data')
    rep.rule('order', 'in the driver a setting is changed before the operations that use it')
    rep.rule('wired', 'the settings reach the functions that act on them')
    rep.rule('parameter', 'a parameter that callers supply is read before it is overwritten')
    P = prog.find_class('Parameters')
    rep.need(P is not None, 'class Parameters is gone')
    settings = set(P.getters) | set(P.setters)
    for name in sorted(prog.scripts):
        script(rep, prog, prog.scripts[name], name, settings)
    pairs(rep, prog, P)
    consumers(rep, prog, P)
    keywords(rep, prog, P)
    live.parameters(rep, prog)
    peek(rep, prog)
    wiring.run(rep, prog)
    order(rep, prog)


def script(rep, prog, mod, name, settings):
    opts, unknown = options(mod)
    if not opts:
        rep.skip('used', mod.rel, 'no options found')
        return
    fl = Flow(mod, prog)
    if fl.opaque or not fl.has_parse:
        rep.skip('used', mod.rel, 'the parsed options are used in a way that is not followed')
        return
    # reads of dest through getattr with a computed name
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and dotted(n.func) in ('getattr', 'vars') and n.args and fl.is_ns(n.args[0]) and \
                not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
            rep.skip('used', mod.rel, 'options are read by computed names')
            return
    sinks = Sinks(fl, prog, mod)
    for d, o in sorted(opts.items()):
        where = '%s:%d' % (mod.rel, o.call.lineno)
        u = [n for n in fl.uses.get(d, ()) if effective(n)]
        if not u:
            rep.bad('used', '%s:%s' % (mod.rel, d), where, 'the option %s is accepted and then ignored' % '/'.join(o.flags))
            continue
        rep.ok('used', '%s: %s is read at %d places' % (mod.rel, '/'.join(o.flags), len(u)))
        for n in u:
            p = n._parent
            if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.slice, ast.Constant) and isinstance(p.slice.value, int):
                i = p.slice.value
                if o.listed is False and o.action is None and (o.default is None or isinstance(o.default, ast.Constant)):
                    rep.bad('shape', '%s:%s' % (mod.rel, d), '%s:%d' % (mod.rel, n.lineno),
                            'the option %s takes a single value but is indexed' % '/'.join(o.flags))
                elif o.count is not None and not -o.count <= i < o.count:
                    rep.bad('shape', '%s:%s' % (mod.rel, d), '%s:%d' % (mod.rel, n.lineno),
                            'the option %s takes %d values; index %d' % ('/'.join(o.flags), o.count, i))
                else:
                    rep.ok('shape', '%s: %s[%d]' % (mod.rel, d, i))
        for sp in SPEC.get(name, {}).get(d, ()):
            st = [sink_state(s.strip(), d, o, sinks, prog, settings) for s in sp.split('|')]
            if 'ok' in st:
                rep.ok('option', '%s: %s reaches %s' % (mod.rel, '/'.join(o.flags), sp))
            elif 'undecided' in st and st.count('missing') < len(st):
                rep.skip('option', where, '%s -> %s' % (d, sp))
            else:
                rep.bad('option', '%s:%s:%s' % (mod.rel, d, sp), where,
                        'the option %s does not reach %s' % ('/'.join(o.flags), sp.replace('!', 'the negation of ')))


# -- settings -------------------------------------------------------------

def fields(node, ctx):
    return [n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and
            n.value.id == 'self' and isinstance(n.ctx, ctx)]


def getter_field(f):
    """the field a getter returns unchanged, or None"""
    rs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    if len(rs) == 1 and isinstance(rs[0], ast.Attribute) and isinstance(rs[0].value, ast.Name) and rs[0].value.id == 'self':
        return rs[0].attr
    return None


def stores_of(f, pname):
    """fields that receive the parameter"""
    alias = {pname}
    for _ in range(3):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in alias for x in ast.walk(n.value)):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        alias.add(t.id)
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    if any(isinstance(x, ast.Name) and x.id in alias for x in ast.walk(n.value)):
                        out.add(t.attr)
    return out


def pairs(rep, prog, P):
    byfield = {}
    for name in sorted(set(P.getters) | set(P.setters)):
        g, s = P.getters.get(name), P.setters.get(name)
        if g is None or s is None:
            rep.skip('pair', P.mod.rel, '%s has no getter or setter' % name)
            continue
        gf = getter_field(g)
        reads = {gf} if gf else set(fields(g.node, ast.Load))
        ps = s.params()
        if len(ps) < 2:
            continue
        writes = stores_of(s, ps[1])
        if not writes and not fields(s.node, ast.Store):
            calls = [n for n in ast.walk(s.node) if isinstance(n, ast.Call)]
            if calls:
                rep.skip('pair', s.where(), '%s is stored by a call' % name)
            else:
                rep.bad('pair', 'Parameters.%s' % name, s.where(), 'assigning %s stores nothing' % name)
            continue
        if not writes:
            rep.bad('pair', 'Parameters.%s' % name, s.where(), 'assigning %s does not store the value' % name)
            continue
        if gf is None and any(isinstance(n, ast.Call) for n in ast.walk(g.node)):
            rep.skip('pair', g.where(), '%s is computed' % name)
            continue
        if reads and not (reads & writes):
            rep.bad('pair', 'Parameters.%s' % name, s.where(), 'assigning %s stores %s, reading it gives %s' % (
                name, ', '.join(sorted(writes)), ', '.join(sorted(reads))))
            continue
        extra = writes - reads
        rep.ok('pair', 'Parameters.%s <-> %s' % (name, ', '.join(sorted(reads))))
        for x in sorted(reads):
            byfield.setdefault(x, []).append((name, g))
        for x in sorted(extra):
            byfield.setdefault(x, []).append((name, s))
    for x, v in sorted(byfield.items()):
        if len({n for n, _ in v}) > 1:
            names = sorted({n for n, _ in v})
            # two names of one setting are an alias only when both are full pairs of the same field
            if all(getter_field(P.getters[n]) == x for n in names):
                rep.ok('pair', '%s are names of one setting' % ' and '.join(names))
            else:
                rep.bad('pair', 'Parameters.%s' % x, v[-1][1].where(), 'assigning %s also changes %s' % (names[-1], names[0]))
    # constructor: every parameter initialises one field of its own, every property field is initialised
    init = P.methods.get('__init__')
    if init is None:
        return
    fld = {}
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    fld.setdefault(t.attr, []).append(n.value)
    src = {}
    for a, vs in fld.items():
        for v in vs:
            for x in ast.walk(v):
                if isinstance(x, ast.Name) and x.id in init.params():
                    src.setdefault(x.id, set()).add(a)
    for p in init.params()[1:]:
        w = src.get(p, set())
        if not w:
            rep.bad('pair', 'Parameters.__init__:%s' % p, init.where(), 'the initial value given as %s is not stored' % p)
        elif len(w & set(byfield)) > 1:
            rep.bad('pair', 'Parameters.__init__:%s' % p, init.where(), 'the initial value given as %s is stored as %s' % (p, ' and '.join(sorted(w))))
        else:
            # a parameter that names a setting initialises that setting
            a = sorted(w)[0]
            if p in P.getters and getter_field(P.getters[p]) not in w | {None}:
                rep.bad('pair', 'Parameters.__init__:%s' % p, init.where(), 'the initial value given as %s is stored as %s' % (p, a))
            else:
                rep.ok('pair', 'initial value of %s' % a)
    # set_/get_ pairs of the calculation
    Q = prog.find_class('Quasiparticle')
    if Q is None:
        return
    for n, f in sorted(Q.methods.items()):
        if not n.startswith('set_') or ('get_' + n[4:]) not in Q.methods:
            continue
        g = Q.methods['get_' + n[4:]]
        r = [x.value for x in ast.walk(g.node) if isinstance(x, ast.Return) and x.value is not None]
        ps = set(f.params()[1:])
        w = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    d = dotted(t)
                    if d and d.startswith('self.') and any(isinstance(y, ast.Name) and y.id in ps for y in ast.walk(x.value)):
                        w.add(norm(d))
        rd = {norm(dotted(y)) for v in r for y in ast.walk(v) if isinstance(y, ast.Attribute) and dotted(y)}
        if not w or not rd or any(isinstance(y, ast.Call) for v in r for y in ast.walk(v)):
            rep.skip('pair', f.where(), '%s/%s are computed' % (n, g.name))
        elif w & rd:
            rep.ok('pair', '%s and %s share %s' % (n, g.name, ', '.join(sorted(w & rd))))
        elif len(r) == 1 and isinstance(r[0], ast.Attribute):
            rep.bad('pair', 'Quasiparticle.%s' % n, f.where(), '%s stores %s, %s returns %s' % (n, ', '.join(sorted(w)), g.name, ', '.join(sorted(rd))))
        else:
            rep.skip('pair', f.where(), '%s/%s' % (n, g.name))


def norm(d):
    return '.'.join(x.lstrip('_') for x in d.split('.'))


def is_parameters(e, nm, mod):
    """may the expression be the settings object?"""
    d = dotted(e)
    if d is None:
        return False
    last = d.split('.')[-1].lstrip('_')
    return last in ('parameters', 'params', 'settings')


def consumers(rep, prog, P):
    """every setting that the driver or the menu stores exists and is read by the library (not only displayed)"""
    nm = Names(prog)
    reads, stores = {}, []
    pinst = ('obj', P)
    ui = prog.modules.get('dynaphopy.interface.interactive_ui')
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute):
                continue
            if not (is_parameters(n.value, nm, m) or n.attr in P.getters and (dotted(n.value) or '').split('.')[-1] not in ('args', 'self')):
                continue
            if isinstance(n.ctx, ast.Load):
                q = n
                shown = False
                while q is not None and not isinstance(q, ast.stmt):
                    if isinstance(q, ast.Call) and (dotted(q.func) == 'print' or isinstance(q.func, ast.Attribute) and q.func.attr in ('addstr', 'format')):
                        shown = True
                    q = getattr(q, '_parent', None)
                if not shown and m is not ui:
                    reads.setdefault(n.attr.lstrip('_'), []).append(n)
            elif isinstance(n.ctx, ast.Store) and is_parameters(n.value, nm, m):
                stores.append((n, m))
    dyn = any(isinstance(n, ast.Call) and dotted(n.func) in ('getattr', 'vars') and n.args and is_parameters(n.args[0], nm, m)
              for m in prog.all_modules() for n in ast.walk(m.tree))
    init = {a.lstrip('_') for f in P.methods.values() for a in fields(f.node, ast.Store)}
    seen = set()
    for n, m in stores:
        a = n.attr
        key = '%s:%s' % (m.rel, a)
        if key in seen:
            continue
        seen.add(key)
        if a not in P.setters and a.lstrip('_') not in init and a not in P.attrs:
            rep.bad('stored', key, '%s:%d' % (m.rel, n.lineno), 'the setting %s does not exist: the value is stored under a name nothing reads' % a)
        elif a in P.getters and a not in P.setters:
            rep.bad('stored', key, '%s:%d' % (m.rel, n.lineno), 'the setting %s cannot be assigned' % a)
        elif not reads.get(a.lstrip('_')) and not dyn:
            rep.bad('stored', key, '%s:%d' % (m.rel, n.lineno), 'nothing in the library reads the setting %s' % a)
        else:
            rep.ok('stored', '%s stores %s, read at %d places' % (m.rel, a, len(reads.get(a.lstrip('_'), ()))))


# -- input file -------------------------------------------------------------

def keywords(rep, prog, P):
    r = prog.modules.get('dynaphopy.interface.iofile')
    f = r.funcs.get('read_parameters_from_input_file') if r else None
    rep.need(f is not None, 'read_parameters_from_input_file is gone')
    # helpers called from it belong to it
    bodies = [f.node]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in r.funcs:
            bodies.append(r.funcs[n.func.id].node)
    branches = []           # (keyword, if node)
    for b in bodies:
        for n in ast.walk(b):
            if isinstance(n, ast.If):
                ks = [c.left.value for c in ast.walk(n.test) if isinstance(c, ast.Compare) and len(c.ops) == 1 and
                      isinstance(c.ops[0], ast.In) and isinstance(c.left, ast.Constant) and isinstance(c.left.value, str)
                      and c.left.value.upper() == c.left.value and any(ch.isalpha() for ch in c.left.value)]
                if len(ks) == 1:
                    branches.append((ks[0], n))
    if not branches:
        rep.skip('keyword', f.where(), 'keywords are not recognised by a membership test')
        return
    consumed = consumed_keys(prog)
    loaded = loader_fields(prog)
    table = {}
    for k, n in branches:
        keys = set()
        unknown = False
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update' and x.args:
                    if isinstance(x.args[0], ast.Dict) and all(isinstance(z, ast.Constant) for z in x.args[0].keys):
                        keys |= {z.value for z in x.args[0].keys}
                    else:
                        unknown = True
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'update':
                    keys |= {z.arg for z in x.keywords if z.arg}
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                    keys.add(x.slice.value)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in r.funcs:
                    unknown = True
        where = '%s:%d' % (r.rel, n.lineno)
        if not keys:
            if unknown:
                rep.skip('keyword', where, k)
            else:
                rep.bad('keyword', k, where, 'the keyword %s is recognised and nothing is stored for it' % k)
            continue
        for key in sorted(keys):
            table.setdefault(key, []).append((k, where))
            if key.startswith('_') and (key in loaded['all']) or key in consumed:
                rep.ok('keyword', '%s stores %s, which is read' % (k, key))
            elif loaded['opaque']:
                rep.skip('keyword', where, key)
            else:
                rep.bad('keyword', '%s:%s' % (k, key), where, 'what the keyword %s stores as %s is never read' % (k, key))
    for key, v in sorted(table.items()):
        if len({k for k, _ in v}) > 1:
            rep.bad('keyword', key, v[-1][1], 'the keywords %s store the same key %s' % (' and '.join(sorted({k for k, _ in v})), key))
    ks = sorted({k for k, _ in branches})
    for a in ks:
        for b in ks:
            if a != b and a in b:
                rep.bad('keyword', '%s/%s' % (a, b), f.where(), 'a line with the keyword %s is also taken for %s' % (b, a))
    SPECK = {'STRUCTURE FILE OUTCAR': 'read_from_file_structure_outcar', 'STRUCTURE FILE POSCAR': 'read_from_file_structure_poscar',
             'FORCE SETS': 'get_force_sets_from_file', 'FORCE CONSTANTS': 'get_force_constants_from_file'}
    FIELD = {'PRIMITIVE MATRIX': ('Structure', '_primitive_matrix'), 'BANDS': ('Parameters', '_band_ranges'),
             'MESH PHONOPY': ('Parameters', '_mesh_phonopy')}
    d = prog.scripts.get('dynaphopy')
    for key, v in sorted(table.items()):
        k = v[0][0]
        if k in SPECK and d is not None:
            fn = SPECK[k]
            calls = [n for n in ast.walk(d.tree) if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == fn]
            if not calls:
                rep.skip('keyword', v[0][1], '%s is not called by name' % fn)
                continue
            direct = [c for c in calls if any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str)
                                              for a in list(c.args) + [z.value for z in c.keywords] for x in ast.walk(a))]
            if not direct:
                rep.skip('keyword', v[0][1], '%s is called with a computed argument' % fn)
            elif any(isinstance(x, ast.Constant) and x.value == key for c in direct for x in ast.walk(c)):
                rep.ok('keyword', '%s reaches %s' % (k, fn))
            else:
                rep.bad('keyword', '%s:%s' % (k, fn), v[0][1], 'what the keyword %s names is not what %s reads' % (k, fn))
        elif k in FIELD and not loaded['opaque']:
            cname, fld = FIELD[k]
            c = prog.find_class(cname)
            if c is None or cname not in loaded['by']:
                continue
            if key in loaded['by'][cname]:
                rep.ok('keyword', '%s is loaded into %s.%s' % (k, cname, key))
            elif key not in consumed:
                rep.bad('keyword', '%s:%s' % (k, key), v[0][1], 'what the keyword %s stores (%s) is not a field of %s' % (k, key, cname))


def consumed_keys(prog):
    out = set()
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                d = dotted(n.value) or ''
                if 'param' in d.lower() or 'dict' in d.lower() or 'input' in d.lower() or 'data' in d.lower():
                    out.add(n.slice.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop') and n.args and isinstance(n.args[0], ast.Constant):
                out.add(n.args[0].value)
    return out


def loader_fields(prog):
    """fields that get_data_from_dict can load, per class"""
    out = {'all': set(), 'by': {}, 'opaque': False}
    for m in prog.modules.values():
        for c in m.classes.values():
            f = c.methods.get('get_data_from_dict')
            if f is None:
                continue
            if not any(isinstance(n, ast.Attribute) and n.attr == '__dict__' or isinstance(n, ast.Call) and dotted(n.func) in ('vars', 'setattr')
                       for n in ast.walk(f.node)):
                out['opaque'] = True
                continue
            # is it called by the driver at all?
            fl = set()
            for g in c.methods.values():
                if g.name == '__init__':
                    fl |= set(fields(g.node, ast.Store))
            fl |= set()
            out['by'][c.name] = fl
            out['all'] |= fl
    if not out['by']:
        out['opaque'] = True
    return out


# -- data lines --------------------------------------------------------------

def peek(rep, prog):
    """a file is read line by line after a line was taken from it only to be measured, without going back"""
    for m in prog.scripts.values():
        for body in [m.tree] + [f.node for f in m.funcs.values()]:
            stm = [n for n in ast.walk(body) if owner(n) is body]
            opened = {t.id for n in stm if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and dotted(n.value.func) == 'open'
                      for t in n.targets if isinstance(t, ast.Name)}
            opened |= {n.optional_vars.id for n in stm if isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name)}
            for v in sorted(opened):
                ops = []
                for n in stm:
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == v:
                        if n.func.attr in ('readline', '__next__'):
                            ops.append((n.lineno, n.col_offset, 'peek' if measured(n, body) else 'line', n))
                        elif n.func.attr in ('seek', 'close'):
                            ops.append((n.lineno, n.col_offset, 'seek', n))
                        elif n.func.attr in ('read', 'readlines'):
                            ops.append((n.lineno, n.col_offset, 'data', n))
                    elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == v:
                        ops.append((n.iter.lineno, n.iter.col_offset, 'data', n.iter))
                    elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == v for a in n.args):
                        if (dotted(n.func) or '').split('.')[-1] in ('loadtxt', 'genfromtxt'):
                            ops.append((n.lineno, n.col_offset, 'data', n))
                    elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in n.targets):
                        ops.append((n.lineno, n.col_offset, 'seek', n))
                ops.sort(key=lambda o: o[:2])
                last = None
                for ln, _, k, n in ops:
                    if k == 'peek':
                        last = n
                    elif k == 'seek':
                        last = None
                    elif k == 'data':
                        if last is not None:
                            rep.bad('peek', '%s:%s' % (m.rel, v), '%s:%d' % (m.rel, last.lineno),
                                    'the line read here is measured and then missing from the data read at line %d' % ln)
                        else:
                            rep.ok('peek', '%s: the data of %s are read from the start' % (m.rel, v))
                        last = None


def owner(n):
    p = getattr(n, '_parent', None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
        p = getattr(p, '_parent', None)
    return p


def measured(n, body):
    """is the value of a call used for its length only?"""
    p, c = n._parent, n
    while isinstance(p, (ast.Attribute, ast.Call)):
        if isinstance(p, ast.Call) and dotted(p.func) == 'len' and c in p.args:
            return True
        c, p = p, p._parent
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        v = p.targets[0].id
        uses = [x for x in ast.walk(body) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
        return bool(uses) and all(measured(x, body) for x in uses)
    return False


# -- order ---------------------------------------------------------------------

def order(rep, prog):
    """in the driver, an operation that uses a setting does not come before the option that changes it"""
    d = prog.scripts.get('dynaphopy')
    Q = prog.find_class('Quasiparticle')
    if d is None or Q is None:
        return
    funcs = {}
    for f in prog.functions():
        if not isinstance(f.node, ast.Lambda) and f.mod.name.startswith('dynaphopy') and 'interactive_ui' not in f.mod.name:
            funcs.setdefault(f.name, []).append(f)
    memo = {}

    def reads(f):
        """names of settings a function may read, itself or through what it calls"""
        if id(f.node) in memo:
            return memo[id(f.node)]
        seen, todo, out = set(), [f], set()
        while todo:
            g = todo.pop()
            if id(g.node) in seen:
                continue
            seen.add(id(g.node))
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    b = dotted(n.value) or ''
                    if b.split('.')[-1].lstrip('_') in ('parameters', 'params') or isinstance(n.value, ast.Call) and dotted(n.value.func) == 'Parameters':
                        out.add(n.attr.lstrip('_'))
                if isinstance(n, ast.Call):
                    dd = dotted(n.func)
                    name = dd.split('.')[-1] if dd else None
                    if name and name.startswith('set_') and dd.startswith('self.'):
                        continue
                    c = funcs.get(name, ())
                    if dd and dd.startswith('self.') and dd.count('.') == 1:
                        c = [x for x in c if x.cls is not None]
                    todo.extend(c)
                if isinstance(n, ast.Subscript):
                    b = dotted(n.value) or ''
                    r = g.mod.resolve(b) if b and '.' not in b else None
                    if r and r[0] == 'value':
                        for v in r[2]:
                            for x in ast.walk(v):
                                if isinstance(x, ast.Name):
                                    todo.extend(funcs.get(x.id, ()))
        memo[id(f.node)] = out
        return out

    def writes(f, depth=0):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                b = dotted(n.value) or ''
                if b.split('.')[-1].lstrip('_') in ('parameters', 'params'):
                    out.add(n.attr.lstrip('_'))
            if isinstance(n, ast.Call) and depth < 4:
                dd = dotted(n.func) or ''
                if dd.startswith('self.') and dd.count('.') == 1 and dd[5:] in Q.methods:
                    out |= writes(Q.methods[dd[5:]], depth + 1)
        return out

    events = []
    for s in d.tree.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (dotted(n.value) or '').endswith('.parameters'):
                events.append((n.lineno, 'set', {n.attr.lstrip('_')}, n, n.attr))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in Q.methods and n.func.value.id not in ('reading', 'np'):
                f = Q.methods[n.func.attr]
                if n.func.attr.startswith(('set_', 'select_')):
                    events.append((n.lineno, 'set', writes(f), n, n.func.attr))
                else:
                    events.append((n.lineno, 'get', reads(f), n, n.func.attr))
    events.sort(key=lambda e: e[0])
    for i, (ln, k, names, n, what) in enumerate(events):
        if k != 'set' or not names:
            continue
        hit = None
        for e in events[:i]:
            if e[1] == 'get' and names & e[2] and not exclusive(e[3], n):
                hit = e
        if hit:
            rep.bad('order', 'scripts/dynaphopy:%s' % what, '%s:%d' % (d.rel, ln), '%s (%s) is set after %s, which uses it, at line %d' % (
                what, ', '.join(sorted(names & hit[2])), hit[4], hit[0]))
        else:
            rep.ok('order', 'scripts/dynaphopy: %s is set before what uses it' % what)


def exclusive(a, b):
    """the two nodes are in different arms of one if"""
    pa = []
    c, p = a, a._parent
    while p is not None:
        if isinstance(p, ast.If):
            pa.append((p, c in p.body))
        c, p = p, getattr(p, '_parent', None)
    c, p = b, b._parent
    while p is not None:
        if isinstance(p, ast.If):
            for q, arm in pa:
                if q is p and arm != (c in p.body):
                    return True
        c, p = p, getattr(p, '_parent', None)
    return False
