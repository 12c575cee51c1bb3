"""C17: quantities are combined in consistent units (unit inference, exact formulas, values of constants)."""
import ast
import math
import re
from collections import Counter
from fractions import Fraction

from ..model import Program
from .. import field as F
from .. import formula as fm
from .. import units as un
from .. import cunits
from . import c21


def run(rep):
    prog = Program()
    rep.rule('constant', 'a number that stands for a physical constant has its accepted value (relative 1e-4)')
    rep.rule('sum', 'terms that are added, subtracted, compared or interpolated on one another have one unit')
    rep.rule('pure', 'the argument of an exponential, a logarithm or a circular function is a pure number')
    rep.rule('phase', 'a phase is 2 pi times frequency times time')
    rep.rule('count', 'a number of elements or steps is a pure number')
    rep.rule('result', 'what a documented getter returns is in its unit')
    rep.rule('label', 'what is printed with a unit has this unit')
    rep.rule('argument', 'what is given to a function is in the unit the function takes')
    rep.rule('spectrum', 'each power spectrum algorithm gives eV ps from velocities in amu^1/2 A/ps')
    rep.rule('formula', 'the physical formulas are the accepted ones, constants and conversion factors included')
    rep.rule('time', 'the times given to a trajectory are the time step (in ps) times the number of the step')
    constants(rep, prog)
    inference(rep, prog)
    kernels(rep)
    thermal(rep, prog)
    fitting(rep, prog)
    temperature(rep, prog)
    renormalized(rep, prog)
    times(rep, prog)
    rep.assumptions += ['accepted values of the constants: CODATA 2018',
                        'documented units of the public interface: ps, THz, K, Angstrom, amu, eV']


# ------------------------------------------------------------------ constants
def constants(rep, prog):
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Constant) and isinstance(n.value, float)):
                continue
            p = getattr(n, '_parent', None)
            while isinstance(p, ast.UnaryOp):
                p = p._parent
            role = isinstance(p, (ast.Assign, ast.AnnAssign)) or (isinstance(p, ast.BinOp) and isinstance(p.op, (ast.Mult, ast.Div))) or \
                (isinstance(p, ast.AugAssign) and isinstance(p.op, (ast.Mult, ast.Div)))
            if not role or not (n.value > 0) or n.value == float('inf'):
                continue
            if isinstance(p, ast.BinOp) and scaled(rep, m, n, p):
                continue
            digits = len(repr(n.value).replace('.', '').split('e')[0].strip('0'))
            if digits < 4:
                continue
            hit = fm.near(n.value)
            if hit:
                rep.ok('constant', '%s:%d %r is the %s' % (m.rel, n.lineno, n.value, hit[0]))
                continue
            close = fm.near(n.value, 0.05)
            if close:
                name = enclosing(n)
                rep.bad('constant', '%s:%s:%r' % (m.rel, name, n.value), '%s:%d' % (m.rel, n.lineno),
                        '%r differs from the %s, %.9g' % (n.value, close[0], close[1]))


def scaled(rep, m, n, p):
    """NAME = <constant> * 10^k : the whole is the definition of the constant"""
    while isinstance(getattr(p, '_parent', None), (ast.BinOp, ast.UnaryOp)):
        p = p._parent
    a = getattr(p, '_parent', None)
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name)):
        return False
    v = fold(p)
    hit = fm.near(n.value)
    if v is None or not v > 0 or hit is None:
        return False
    whole = fm.near(v)
    if whole:
        rep.ok('constant', '%s:%d %s is the %s' % (m.rel, n.lineno, a.targets[0].id, whole[0]))
        return True
    k = round(math.log10(v / n.value))
    if k != 0 and abs(v / n.value / 10.0 ** k - 1) < 1e-6:
        rep.bad('constant', '%s:%s:%r' % (m.rel, a.targets[0].id, v), '%s:%d' % (m.rel, n.lineno),
                '%s is %.9g, 10^%d times the %s' % (a.targets[0].id, v, k, hit[0]))
        return True
    return False


def fold(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return float(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = fold(e.operand)
        return None if v is None else -v
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.Pow)):
        a, b = fold(e.left), fold(e.right)
        if a is None or b is None:
            return None
        try:
            return a * b if isinstance(e.op, ast.Mult) else a / b if isinstance(e.op, ast.Div) else a ** b
        except (ZeroDivisionError, OverflowError):
            return None
    return None


def enclosing(n):
    p = getattr(n, '_parent', None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.ClassDef)):
        if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
            return p.targets[0].id
        p = getattr(p, '_parent', None)
    return p.name if p is not None else 'module'


# ------------------------------------------------------------------ inference of units
def inference(rep, prog):
    A, n = un.analyse(prog)
    rep.info['functions_analysed_for_units'] = n
    for r, items in sorted(A.decided.items()):
        for i in sorted(items):
            rep.ok(r, i)
    for r, fr, node, text in A.problems:
        rep.bad(r, '%s:%s' % (fr.name, un.cut(node)), '%s:%d' % (fr.mod.rel, getattr(node, 'lineno', 0)), '%s: %s' % (text, un.cut(node)))
    # registered algorithms
    m = prog.modules.get('dynaphopy.power_spectrum')
    table = None
    if m is not None:
        r = m.resolve('power_spectrum_functions')
        if r is not None and r[0] == 'value' and len(r[2]) == 1 and isinstance(r[2][0], ast.Dict):
            table = (r[1], r[2][0])
    rep.need(table is not None, 'the table of power spectrum algorithms (power_spectrum_functions) is not found')
    mod, d = table
    for k, v in zip(d.keys, d.values):
        f = None
        for x in ast.walk(v):
            if isinstance(x, (ast.Name, ast.Attribute)) and f is None:
                r = mod.resolve(x.id) if isinstance(x, ast.Name) else None
                if r is not None and r[0] == 'func':
                    f = r[1]
        if f is None:
            rep.skip('spectrum', ast.unparse(v)[:60], 'function not found')
            continue
        B = un.Analysis(prog)
        B.names = []
        args = [un.MVEL] + [B.fresh() for _ in f.params()[1:]]
        u = B.function(f, args)
        if u is None or not isinstance(u, (un.U, un.Lst)):
            rep.skip('spectrum', f.name, 'result not followed')
            continue
        w = B.sys.norm(B.num(u))
        if w.v:
            rep.skip('spectrum', f.name, 'unit of the result not known')
        elif w.d == un.SPEC.d:
            rep.ok('spectrum', f.qual)
        else:
            rep.bad('spectrum', f.qual, f.where(), '%s gives a power spectrum in %s instead of eV ps' % (f.name, B.sys.show(w)))


def kernels(rep):
    for cf, f, A, r, want in cunits.analyse():
        if f is None:
            rep.skip('sum', cf.rel, 'not parsed: ' + cf.error)
            continue
        for rule, items in sorted(A.decided.items()):
            for i in sorted(items):
                rep.ok(rule, i)
        for rule, c, fn, node, text in A.problems:
            rep.bad(rule, '%s:%s:%s' % (c.rel, fn.name, text), '%s:%s' % (c.rel, node.line), text)
        if want is not None:
            if r is None:
                rep.skip('spectrum', '%s:%s' % (cf.rel, f.name), 'result not followed')
                continue
            x = A.sys.mul(r.u, want, -1)
            if not x.d and not x.v:
                rep.ok('spectrum', '%s:%s gives velocity^2 times ps' % (cf.rel, f.name))
            elif set(x.v) <= set(A.sys.norm(A.velocity).v):
                rep.bad('spectrum', '%s:%s' % (cf.rel, f.name), '%s:%s' % (cf.rel, f.line),
                        '%s gives the spectrum in other units than velocity^2 times ps (off by %s)' % (f.name, A.sys.show(x)))
            else:
                rep.skip('spectrum', '%s:%s' % (cf.rel, f.name), 'unit of the result not known')


# ------------------------------------------------------------------ formulas
def expected():
    h, k, N, e = fm.H, fm.K, fm.NA, fm.QE
    T, f, g = F.var('temperature'), F.var('frequency'), F.var('dos')
    half = F.num(Fraction(1, 2))
    x = h * f / (k * T)
    n = F.num(1) / (F.exp(x) - F.num(1))
    return {
        'U': N * g * h * f * (half + n),
        'F': N * g * k * T * F.log(F.num(2) * F.sinh(x / F.num(2))),
        'S': N * g * (h * f / T * (n + half) - k * F.log(F.num(2) * F.sinh(x / F.num(2)))),
        'C': N * g * k * x * x * F.exp(x) / ((F.exp(x) - F.num(1)) * (F.exp(x) - F.num(1))),
    }, h, k, N, e, T, f, g, n, half


def thermal(rep, prog):
    mod = c21.thermo_module(prog)
    if mod is None:
        rep.skip('formula', 'thermal functions', 'not found')
        return
    ctx = c21.Ctx(prog, mod)
    exp, h, k, N, e, T, f, g, n, half = expected()
    unit = {'F': 1000, 'U': 1000, 'S': 1, 'C': 1}
    for name, q in c21.THERMO.items():
        compare(rep, prog, ctx, mod, name, ['temperature', 'frequency', 'dos'], {(): exp[q]}, unit[q])
    compare(rep, prog, ctx, mod, 'get_free_energy_correction_shift', ['temperature', 'frequency', 'dos', 'shift'],
            {(): -N * g * h * half * F.var('shift') * (n + half)}, 1000)
    compare(rep, prog, ctx, mod, 'get_free_energy_correction_dos', ['temperature', 'frequency', 'dos', 'dos_r'],
            {(): -N * (F.var('dos_r') - g) * h * half * f * (n + half)}, 1000)
    # power spectrum to density of states
    fd = mod.funcs.get('get_dos')
    if fd is None or len(fd.params()) < 4:
        rep.skip('formula', 'get_dos', 'not found')
        return
    names = ['temperature', 'frequency', 'spectrum', 'size'] + ['option%d' % i for i in range(len(fd.params()) - 4)]
    ps, size = F.var('spectrum'), F.var('size')
    classical = F.num(2) * e * ps / (k * T * size)
    quantum = F.num(2) * e * ps / (h * f * (half + n) * size)
    try:
        rs = fm.readings(prog, c21.fun(fd), lambda: [fm.Obj(x) for x in names], {}, ctx, positive=names[:4])
    except (fm.Undecided, F.Unknown, fm.Skip) as x:
        rep.skip('formula', 'get_dos', str(x) or 'not followed')
        return
    for tr, v, ev in rs:
        if not isinstance(v, fm.Num):
            rep.skip('formula', 'get_dos', 'not followed')
            continue
        syms = c21.atoms_of(v.rat) - set(names) - set(fm.BASE) - {'pi'}
        if {s for s in syms if not s.startswith('prime')}:
            rep.skip('formula', 'get_dos', 'uses values that are not followed')
            continue
        which = [b for b, x in (('classical', classical), ('quantum', quantum)) if (v.rat - x).zero()]
        bose = dict(tr).get('option0')
        want = None if bose is None else ('quantum' if bose else 'classical')
        if which and (want is None or want in which):
            rep.ok('formula', 'get_dos: %s statistics%s' % (which[0], c21.cond_text(tr)))
        elif c21.undecidable(v.rat):
            rep.skip('formula', 'get_dos', 'normal form not decided')
        else:
            rep.bad('formula', 'get_dos:%s' % (want or 'any'), fd.where(), 'the density of states%s is %s, not 2 E_spectrum / (E n) with E = %s' % (
                c21.cond_text(tr), F.show(v.rat, 200), 'h f (1/2 + n)' if want == 'quantum' else 'k T'))


def compare(rep, prog, ctx, mod, name, params, want, unit):
    f = mod.funcs.get(name)
    if f is None or len(f.params()) < len(params):
        rep.skip('formula', name, 'not found')
        return
    try:
        rs = fm.readings(prog, c21.fun(f), lambda: [fm.Obj(p) for p in params], {}, ctx, positive=('temperature', 'frequency', 'dos'))
    except (fm.Undecided, F.Unknown, fm.Skip) as x:
        rep.skip('formula', name, str(x) or 'not followed')
        return
    for tr, v, ev in rs:
        if v is None:
            continue
        if not isinstance(v, fm.Int):
            rep.skip('formula', name, 'not an integral over the range')
            return
        parts = c21.merge(c21.generic(v.parts))
        syms = c21.symbols(parts) - set(params) - set(fm.BASE) - {'pi'}
        if {s for s in syms if not s.startswith('prime')} or any(k[0] != 'frequency' for k in parts):
            rep.skip('formula', name, 'uses values that are not followed')
            return
        try:
            ok, det = c21.law(c21.scale(parts, F.num(unit)), {('frequency', frozenset()): want[()]})
        except F.Unknown as x:
            ok, det = None, str(x)
        if ok:
            rep.ok('formula', '%s%s' % (name, c21.cond_text(tr)))
        elif ok is None:
            rep.skip('formula', name, 'normal form not decided')
        else:
            rep.bad('formula', name, f.where(), '%s is not the accepted formula: the integrand differs by %s' % (name, F.show(det[1], 200)))


def plain_helpers(prog):
    out = set()
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda):
            continue
        if len(f.node.body) <= 6 and all(isinstance(n, (ast.Assign, ast.AugAssign, ast.Return)) or
                                         (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) for n in f.node.body):
            out.add(f.qual)
    return out


def field_of(sym):
    m = re.search(r"\[(?:'([A-Za-z_]+)')\]$", sym)
    return (sym[:m.start()], m.group(1)) if m else None


def fitting(rep, prog):
    """the lines 'Occupation number', 'Fit temperature' and '<|dQ/dt|^2>' that follow a fit"""
    helpers = plain_helpers(prog)
    hv, kv = fm.H / fm.QE, fm.K / fm.QE
    half = F.num(Fraction(1, 2))
    done = False
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        if not any(isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r'Occupation number|Fit temperature|dQ/dt', n.value)
                   for n in ast.walk(f.node)):
            continue
        ps = f.params()
        try:
            rs = fm.readings(prog, c21.fun(f), lambda: [fm.Obj(p) for p in ps], {}, lambda g: g.qual in helpers, limit=64, partial=True)
        except (fm.Undecided, F.Unknown, fm.Skip) as x:
            rep.skip('formula', f.qual, str(x) or 'not followed')
            continue
        for tr, v, ev in rs:
            for e in ev:
                if e[0] != 'format':
                    continue
                for line, pos in fm.fields(e[1]):
                    kind = 'occupation' if 'Occupation number' in line else 'temperature' if re.search('Fit temperature', line) else \
                        'kinetic' if 'dQ/dt' in line else None
                    if kind is None:
                        continue
                    val = e[2][pos] if isinstance(pos, int) and pos < len(e[2]) else e[3].get(pos) if isinstance(pos, str) else None
                    try:
                        r = fm.Run(prog, [], lambda g: False).num(val).rat
                    except (fm.Undecided, F.Unknown, AttributeError):
                        rep.skip('formula', '%s: %s' % (f.qual, kind), 'value not followed')
                        continue
                    syms = {s for s in F.symbols(r) if s not in fm.BASE and s != 'pi' and not s.startswith('prime')}
                    flds = {s: field_of(s) for s in syms}
                    if not syms or any(x is None for x in flds.values()) or len({x[0] for x in flds.values()}) != 1 or any(x[1] not in ('area', 'peak_position') for x in flds.values()):
                        rep.skip('formula', '%s: %s' % (f.qual, kind), 'uses values that are not followed')
                        continue
                    base = next(iter(flds.values()))[0]
                    A, P = F.var(base + "['area']"), F.var(base + "['peak_position']")
                    occ = F.num(2) * A / (P * hv) - half
                    want = {'occupation': occ, 'kinetic': F.num(2) * A,
                            'temperature': hv * P / (kv * F.log(F.num(1) / occ + F.num(1)))}[kind]
                    done = True
                    same = F.same(r, want)
                    if same:
                        rep.ok('formula', '%s: %s' % (f.qual, line.strip()[:40]))
                    elif same is None:
                        rep.skip('formula', '%s: %s' % (f.qual, kind), 'normal form not decided')
                    else:
                        rep.bad('formula', '%s:%s' % (f.qual, kind), '%s:%d' % (f.mod.rel, e[4].lineno),
                                '"%s" is %s, not %s' % (line.strip()[:40], F.show(r, 4000).replace(base, 'fit')[:160], F.show(want, 4000).replace(base, 'fit')[:160]))
    if not done:
        rep.skip('formula', 'fit', 'no occupation or temperature of a fit found')


def temperature(rep, prog):
    """temperature of the velocity distribution: (scale of the Maxwell distribution)^2 u / k"""
    helpers = plain_helpers(prog)
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        if not any(isinstance(n, (ast.Attribute, ast.Name)) and (n.attr if isinstance(n, ast.Attribute) else n.id) == 'maxwell'
                   for n in ast.walk(f.node)):
            continue
        ps = f.params()
        try:
            rs = fm.readings(prog, c21.fun(f), lambda: [fm.Obj(p) for p in ps], {}, lambda g: g.qual in helpers, partial=True)
        except (fm.Undecided, F.Unknown, fm.Skip) as x:
            rep.skip('formula', f.qual, str(x) or 'not followed')
            continue
        for tr, v, ev in rs:
            vals = [('returned', v)] if isinstance(v, (fm.Num,)) else []
            for e in ev:
                if e[0] == 'format':
                    for line, pos in fm.fields(e[1]):
                        if 'emperature' in line and isinstance(pos, int) and pos < len(e[2]) and isinstance(e[2][pos], fm.Num):
                            vals.append(('printed', e[2][pos]))
            for what, x in vals:
                syms = {s for s in c21.atoms_of(x.rat) if s not in fm.BASE and s != 'pi' and not s.startswith('prime')}
                if len(syms) != 1 or 'fit(' not in next(iter(syms)) or not re.search(r'\[-?1\]$', next(iter(syms))):
                    rep.skip('formula', '%s: temperature' % f.qual, 'not the scale of a fitted distribution')
                    continue
                s = F.var(next(iter(syms)))
                if (x.rat - s * s * fm.AMU / fm.K).zero():
                    rep.ok('formula', '%s: temperature %s' % (f.qual, what))
                else:
                    rep.bad('formula', f.qual + ':temperature', f.where(), 'the temperature %s is %s with s the scale of the Maxwell distribution, not s^2 u/k' % (
                        what, F.show(x.rat, 300).replace(next(iter(syms)), 's')[:160]))


def renormalized(rep, prog):
    """force constants from frequencies: eigenvalues (f / conversion)^2 with the sign of f"""
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                 n.func.attr in ('create_dynamical_matrices', 'set_dynamical_matrices')]
        if not calls:
            continue
        A = Conv(prog, f)
        for c in calls:
            kw = {k.arg: k.value for k in c.keywords}
            arg = kw.get('eigenvalues', c.args[0] if c.args and c.func.attr == 'create_dynamical_matrices' else None) \
                if c.func.attr == 'create_dynamical_matrices' else (c.args[0] if c.args else kw.get('frequencies'))
            if arg is None:
                rep.skip('formula', '%s: %s' % (f.qual, c.func.attr), 'argument not found')
                continue
            got = A.value(arg)
            want = (Fraction(1), -2) if c.func.attr == 'create_dynamical_matrices' else (Fraction(1), -1)
            if got is None or 'f' not in got:
                rep.skip('formula', '%s: %s' % (f.qual, c.func.attr), 'not followed')
                continue
            power, conv = got['f'], got['c']
            p = 2 if c.func.attr == 'create_dynamical_matrices' else 1
            if power == p and conv == -p:
                rep.ok('formula', '%s: %s' % (f.qual, c.func.attr))
            else:
                rep.bad('formula', '%s:%s' % (f.qual, c.func.attr), '%s:%d' % (f.mod.rel, c.lineno),
                        '%s takes %s; given is frequency^%s times conversion^%s' % (
                            c.func.attr, '(frequency/conversion)^2' if p == 2 else 'frequency/conversion', power, conv))


class Conv:
    """powers of the frequency and of the conversion factor (VASP units to THz) in an expression"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.defs.setdefault(n.targets[0].id, []).append(n.value)
        self.params = f.params()
        self.busy = set()

    def value(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.busy:
                return {'f': 1, 'c': 0} if e.id in self.params else None
            if e.id in self.defs:
                self.busy.add(e.id)
                vs = [self.value(v) for v in self.defs[e.id]]
                self.busy.discard(e.id)
                vs = [v for v in vs if v is not None]
                return vs[0] if vs and all(v == vs[0] for v in vs) else None
            if e.id in self.params:
                return {'f': 1, 'c': 0} if self.params.index(e.id) == 0 else None
            r = self.f.mod.resolve(e.id)
            if conv(r, e.id) or conv(self.f.mod.imports.get(e.id), e.id):
                return {'f': 0, 'c': 1}
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return {'f': 0, 'c': 0}
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Pow):
                a = self.value(e.left)
                n = un.constant(e.right)
                return None if a is None or n is None else {k: v * n for k, v in a.items()}
            a, b = self.value(e.left), self.value(e.right)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Mult):
                return {k: a[k] + b[k] for k in a}
            if isinstance(e.op, ast.Div):
                return {k: a[k] - b[k] for k in a}
            return None
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if nm == 'sign':
                return {'f': 0, 'c': 0}
            if nm in ('array', 'asarray', 'abs', 'absolute', 'copy', 'ascontiguousarray') and e.args:
                return self.value(e.args[0])
            if nm in ('square',) and e.args:
                a = self.value(e.args[0])
                return None if a is None else {k: 2 * v for k, v in a.items()}
            if nm in ('power', 'pow') and len(e.args) == 2:
                a, n = self.value(e.args[0]), un.constant(e.args[1])
                return None if a is None or n is None else {k: v * n for k, v in a.items()}
        return None


def conv(r, name):
    return 'ToTHz' in name or (r is not None and any('ToTHz' in str(x) for x in r))


# ------------------------------------------------------------------ times
def times(rep, prog):
    for f in prog.functions():
        if f.parent is not None or isinstance(f.node, ast.Lambda) or 'time_step' not in f.params():
            continue
        calls = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if nm == 'Dynamics' and not dead(n):
                    for k in n.keywords:
                        if k.arg == 'time':
                            calls.append((n, k.value))
        W = Times(f)
        for c, v in calls:
            got = W.mult(v)
            if got is None:
                rep.skip('time', f.qual, 'not followed')
                continue
            coef, names = got
            steps = names.get('time_step', 0)
            if steps != 1:
                rep.bad('time', f.qual, '%s:%d' % (f.mod.rel, c.lineno), 'the times of the trajectory are %s' % (
                    'not multiplied by the time step' if steps == 0 else 'proportional to time_step^%s' % steps))
                continue
            want = Fraction(1)
            fs = W.femto()
            if fs is not None:
                # the step is read from the file, in femtoseconds
                want = Fraction(1, 1000)
                coef = coef * fs
            if coef == want:
                rep.ok('time', f.qual)
            else:
                rep.bad('time', f.qual, '%s:%d' % (f.mod.rel, c.lineno), 'the times of the trajectory are %s times the %s, not %s' % (
                    float(coef), 'time step in the file (fs)' if fs is not None else 'time step', float(want)))


def dead(n):
    p = n
    while getattr(p, '_parent', None) is not None:
        q = p._parent
        if isinstance(q, ast.If) and isinstance(q.test, ast.Constant) and not q.test.value and p in q.body:
            return True
        p = q
    return False


class Times:
    """numeric coefficient and named factors of an expression, element by element"""

    def __init__(self, f):
        self.f = f
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(('=', n.value))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append((type(n.op).__name__, n.value))
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(('loop', n.iter))
        self.busy = set()

    def femto(self):
        """coefficient of the time step when it is read from a file that gives it in femtoseconds (POTIM), or None"""
        if not any(isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and
                   'POTIM' in (n.value if isinstance(n.value, str) else n.value.decode('latin-1')) for n in ast.walk(self.f.node)):
            return None
        out = []
        for k, v in self.defs.get('time_step', ()):
            if k != 'loop' and self.reads(v, set()):
                g = self.mult(v)
                if g is None or k != '=':
                    return None
                out.append(g[0])
            elif k in ('Mult', 'Div'):
                g = self.mult(v)
                if g is None or g[1]:
                    return None
                if out:
                    out[-1] = out[-1] * g[0] if k == 'Mult' else out[-1] / g[0]
        return out[0] if len(set(out)) == 1 else None

    def reads(self, e, seen):
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and x.attr in ('readline', 'split', 'group', 'read'):
                return True
            if isinstance(x, ast.Name) and x.id not in seen and x.id != 'time_step':
                seen.add(x.id)
                if any(self.reads(v, seen) for k, v in self.defs.get(x.id, ()) if k != 'loop'):
                    return True
        return False

    def mult(self, e, depth=0):
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            if e.id == 'time_step':
                return Fraction(1), Counter({'time_step': 1})
            if e.id in self.busy or e.id not in self.defs:
                return Fraction(1), Counter()
            self.busy.add(e.id)
            try:
                coef, names = Fraction(1), Counter()
                first = []
                for k, v in self.defs[e.id]:
                    if k == '=' and not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v)):
                        first.append(self.mult(v, depth + 1))
                g = one_of(first)
                if g is None:
                    return None
                coef, names = g[0], Counter(g[1])
                for k, v in self.defs[e.id]:
                    if k == 'loop' or k == '=' and not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v)):
                        continue
                    if k in ('Add', 'Sub'):
                        continue
                    g = self.mult(v, depth + 1)
                    if g is None:
                        return None
                    if k in ('=', 'Mult'):
                        coef *= g[0]
                        names.update(g[1])
                    elif k == 'Div':
                        coef /= g[0]
                        names.subtract(g[1])
                    else:
                        return None
                return coef, Counter({k: v for k, v in names.items() if v})
            finally:
                self.busy.discard(e.id)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) and e.value:
                return Fraction(repr(e.value)) if isinstance(e.value, float) else Fraction(e.value), Counter()
            return Fraction(1), Counter()
        if isinstance(e, ast.IfExp):
            return one_of([self.mult(e.body, depth + 1), self.mult(e.orelse, depth + 1)])
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Mult, ast.Div)):
                a, b = self.mult(e.left, depth + 1), self.mult(e.right, depth + 1)
                if a is None or b is None:
                    return None
                n = Counter(a[1])
                if isinstance(e.op, ast.Mult):
                    n.update(b[1])
                    return a[0] * b[0], n
                n.subtract(b[1])
                return a[0] / b[0], Counter({k: v for k, v in n.items() if v})
            if isinstance(e.op, (ast.Add, ast.Sub)):
                a, b = self.mult(e.left, depth + 1), self.mult(e.right, depth + 1)
                if a is None or b is None:
                    return None
                a, b = strip_const(e.left, a), strip_const(e.right, b)
                if a[1] != b[1]:
                    return a if a[1].get('time_step') else b if b[1].get('time_step') else None
                return a if a[0] == b[0] else None
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.mult(e.elt, depth + 1)
        if isinstance(e, ast.Subscript):
            return self.mult(e.value, depth + 1)
        if isinstance(e, (ast.List, ast.Tuple)):
            return Fraction(1), Counter()
        if isinstance(e, ast.Attribute):
            return self.mult(e.value, depth + 1) if e.attr in ('T', 'real') else (Fraction(1), Counter())
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if nm in ('array', 'asarray', 'float', 'list', 'copy', 'fromiter', 'astype', 'round', 'around') and e.args:
                if any(isinstance(x, ast.Attribute) and x.attr in ('readline', 'split') for x in ast.walk(e.args[0])):
                    return Fraction(1), Counter()
                return self.mult(e.args[0], depth + 1)
            if nm in ('arange', 'linspace', 'cumsum'):
                return None
            if nm in ('multiply',) and len(e.args) == 2:
                return self.mult(ast.BinOp(e.args[0], ast.Mult(), e.args[1]), depth + 1)
            return Fraction(1), Counter()
        return None


def one_of(alternatives):
    """the common value of several definitions; a default that is a plain number does not count"""
    if None in alternatives:
        return None
    named = [g for g in alternatives if +g[1]]
    rest = named or [g for g in alternatives if g[0] != 1] or alternatives
    if not rest:
        return Fraction(1), Counter()
    return rest[0] if all(g == rest[0] for g in rest) else None


def strip_const(node, g):
    return g
