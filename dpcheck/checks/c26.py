"""C26: phase factors are exponentials of purely imaginary numbers; a projection is conjugate to the synthesis."""
import ast

from ..csrc import Values, c_files, callee, text
from ..model import Program
from ..names import dotted
from ..pysym import Sym
from ..reach import Reach

EPS = 1e-12


def is_exp(n):
    if not isinstance(n, ast.Call) or len(n.args) < 1:
        return False
    d = dotted(n.func) or ''
    return d.split('.')[-1] == 'exp' and (d.split('.')[0] in ('np', 'numpy', 'cmath', 'scipy', 'math') or d == 'exp')


def exponent(p):
    """-> 'imaginary', 'real', 'mixed', 'zero'"""
    re = any(abs(complex(v).real) > EPS for v in p.values())
    im = any(abs(complex(v).imag) > EPS for v in p.values())
    return 'mixed' if re and im else 'imaginary' if im else 'real' if re else 'zero'


def conj_of(n):
    """the operand if the node is a conjugation"""
    if isinstance(n, ast.Call):
        d = (dotted(n.func) or '').split('.')
        if d[-1] in ('conj', 'conjugate') and d[0] in ('np', 'numpy') and n.args:
            return n.args[0]
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('conj', 'conjugate') and not n.args:
            return n.func.value
    return None


class Parity:
    """how often (mod 2) the value of an expression is conjugated before it is accumulated"""

    def __init__(self, func):
        self.func = func
        self.reach = Reach(func)
        self.users = {}
        for n in ast.walk(func):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for d in self.reach.defs(n):
                    self.users.setdefault(id(d.stmt), []).append((d, n))

    def of(self, n, depth=0):
        """-> set of parities in which the value reaches a product that is accumulated, returned or added"""
        par, c, p = 0, n, n._parent
        while p is not None and not isinstance(p, ast.stmt):
            if isinstance(p, ast.Subscript) and c is p.slice or isinstance(p, ast.comprehension):
                return set()
            if isinstance(p, ast.Attribute) and p.attr in ('shape', 'dtype', 'ndim', 'size', 'real', 'imag'):
                return set() if p.attr != 'real' else {par}
            if isinstance(p, ast.Call):
                o = conj_of(p)
                if o is not None and (c is o or c is p.func):
                    par ^= 1
                elif c in p.args and (dotted(p.func) or '').split('.')[-1] == 'vdot' and c is p.args[0]:
                    par ^= 1
                elif (dotted(p.func) or '').split('.')[-1] in ('len', 'print', 'range', 'abs', 'norm'):
                    return set()
            if isinstance(p, ast.Compare):
                return set()
            c, p = p, p._parent
        if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets) and depth < 6:
            out = set()
            for d, u in self.users.get(id(p), ()):
                if d.value is p.value:
                    out |= {par ^ x for x in self.of(u, depth + 1)}
            return out
        if isinstance(p, (ast.AugAssign, ast.Assign, ast.Return, ast.Expr)):
            return {par}
        return set()


def phases(func, mod):
    """(node, sign of the space part or None, sign of the time part or None) of the imaginary exponentials of a function"""
    s = Sym(func, mod)
    par = Parity(func)
    for n in ast.walk(func):
        if not is_exp(n) or Sym_scope(n) is not func:
            continue
        p = s.poly(n.args[0])
        space = {1 if complex(v).imag > 0 else -1 for k, v in p.items() if '<dot>' in k and abs(complex(v).imag) > EPS}
        time = {1 if complex(v).imag > 0 else -1 for k, v in p.items() if '<dot>' not in k and len([x for x in k if not x.startswith('1/')]) >= 2 and abs(complex(v).imag) > EPS}
        pr = par.of(n)
        sg = (-1 if pr == {1} else 1) if len(pr) == 1 else None
        yield n, p, (min(space) * sg if len(space) == 1 and sg else None), (min(time) * sg if len(time) == 1 and sg else None)


def Sym_scope(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module, ast.Lambda)):
        n = getattr(n, '_parent', None)
    return n


def called(prog, cls, attr_mod, name):
    """the function of the package that the class calls by this name"""
    for m in prog.modules.values():
        if m.name.split('.')[-1] == attr_mod and name in m.funcs:
            return m.funcs[name]
    for m in prog.modules.values():
        if name in m.funcs:
            return m.funcs[name]
    return None


def run(rep):
    prog = Program()
    rep.rule('imaginary', 'the exponent of a complex phase is purely imaginary')
    rep.rule('cimaginary', 'the exponent of a phase of the compiled kernels is purely imaginary')
    rep.rule('opposite', 'the projection onto a wave vector uses the conjugate of the phase that synthesis and display use')
    rep.rule('conjugate', 'projection uses the conjugate eigenvector, synthesis and display the eigenvector')
    rep.rule('lag', 'the correlation of two steps is combined with the conjugate time phase of their separation')
    found = {}
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda):
            continue
        for n, p, space, time in phases(f.node, f.mod):
            kind = exponent(p)
            where = f.where(n)
            hasdot = any('<dot>' in k for k in p)
            if kind in ('imaginary',):
                rep.ok('imaginary', '%s: exp(%s)' % (f.qual, ast.unparse(n.args[0])))
                found.setdefault(f.qual, []).append((n, space, time))
            elif kind == 'mixed':
                rep.bad('imaginary', '%s:%s' % (f.qual, 'space' if hasdot else 'phase'), where,
                        'the exponent %s has a real part (%s): it changes the amplitude' % (ast.unparse(n.args[0]), p.text()))
            elif kind == 'real' and hasdot:
                rep.bad('imaginary', '%s:space' % f.qual, where,
                        'the exponent %s of the wave vector phase is real: it changes the amplitude' % ast.unparse(n.args[0]))
    # projection against synthesis and display
    proj = called(prog, None, 'projection', 'project_onto_wave_vector')
    syn = called(prog, None, 'iofile', 'generate_test_trajectory')
    disp = called(prog, None, 'modes', 'plot_phonon_modes')

    def sign(f, i):
        if f is None:
            return None
        s = {x[i] for x in found.get(f.qual, ()) if x[i] is not None}
        return s.pop() if len(s) == 1 else None
    sp, ss, sd = sign(proj, 1), sign(syn, 1), sign(disp, 1)
    for f, s, name in ((syn, ss, 'synthesis'), (disp, sd, 'display')):
        if f is None:
            continue
        if sp is None or s is None:
            rep.skip('opposite', f.qual, 'phases are not recognised')
        elif sp == -s:
            rep.ok('opposite', 'projection exp(%+di q.r), %s exp(%+di q.r)' % (sp, name, s))
        else:
            rep.bad('opposite', '%s:%s' % (proj.qual, name), proj.where(), 'projection and %s use the same sign of the phase exp(%+di q.r)' % (name, s))
    # eigenvectors
    for m in prog.modules.values():
        if m.name.split('.')[-1] != 'projection':
            continue
        for f in m.funcs.values():
            if not f.params()[1:] or f is proj or found.get(f.qual) or f.name.startswith('_') and len(f.params()) != 2:
                continue
            ps = f.params()
            if len(ps) != 2:
                continue
            par = Parity(f.node)
            got = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ps[:2]:
                    if any(d.kind == 'param' for d in par.reach.defs(n)):
                        got.setdefault(n.id, set()).update(par.of(n))
            a, b = got.get(ps[0], set()), got.get(ps[1], set())
            if len(a) == 1 and len(b) == 1:
                if a != b and b == {1}:
                    rep.ok('conjugate', '%s: the eigenvector is conjugated' % f.qual)
                elif a == b:
                    rep.bad('conjugate', '%s:%s' % (f.qual, ps[1]), f.where(), 'the projection multiplies by the eigenvector instead of its conjugate')
                else:
                    rep.skip('conjugate', f.qual, 'velocity conjugated')
            else:
                rep.skip('conjugate', f.qual, 'products are not recognised')
    if syn is not None:
        par = Parity(syn.node)
        names = set()
        for n in ast.walk(syn.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'obtain_eigenvectors_and_frequencies':
                t = n.targets[0]
                if isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                    names.add(t.elts[0].id)
        lists = {n.func.value.id: conj_of(n.args[0]) is not None for n in ast.walk(syn.node)
                 if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and isinstance(n.func.value, ast.Name) and
                 any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.args[0]))}
        got = set()
        for n in ast.walk(syn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in lists and not (isinstance(n._parent, ast.Attribute) and n._parent.attr == 'append'):
                got |= {x ^ (1 if lists[n.id] else 0) for x in par.of(n)}
        decide(rep, syn, got)
    if disp is not None:
        par = Parity(disp.node)
        got = set()
        for n in ast.walk(disp.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == 'eigenvectors' and any(d.kind == 'param' for d in par.reach.defs(n)):
                got |= par.of(n)
        decide(rep, disp, got)
    st = sign(syn, 2) if syn is not None else None
    kernels(rep, st)


def decide(rep, f, got):
    if got == {0}:
        rep.ok('conjugate', '%s: the eigenvector is used as it is' % f.qual)
    elif got == {1}:
        rep.bad('conjugate', '%s:eigenvector' % f.qual, f.where(), 'the eigenvector is conjugated, as in the projection')
    else:
        rep.skip('conjugate', f.qual, 'products are not recognised')


def kernels(rep, st):
    for cf in c_files():
        if not cf.ok:
            rep.skip('cimaginary', cf.rel, cf.error)
            continue
        for g in cf.funcs.values():
            v = Values(cf, g)
            exps = {}
            for n in g.walk():
                if callee(n) in ('cexp', 'cexpf', 'cexpl') and len(n.kids) > 1:
                    p = v.poly(n.kids[1])
                    where = '%s:%s' % (cf.rel, n.line)
                    if p is None:
                        rep.skip('cimaginary', where, text(n))
                        continue
                    kind = exponent(p)
                    key = '%s:%s' % (g.name, text(n.kids[1]))
                    if kind in ('imaginary', 'zero'):
                        rep.ok('cimaginary', '%s: cexp(%s)' % (g.name, p.text()))
                        exps['cexp@%s' % n.id] = (n, p)
                    elif kind == 'mixed':
                        rep.bad('cimaginary', key, where, 'the exponent (%s) has a real part: it changes the amplitude' % p.text())
                    else:
                        rep.bad('cimaginary', key, where, 'the exponent (%s) is real: it changes the amplitude, not the phase' % p.text())
            # products conj(V[a]) * V[b] * cexp(i w t)
            for n in g.walk():
                if n.kind in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+='):
                    p = v.poly(n.kids[1])
                elif n.kind == 'VarDecl' and n.raw.get('init'):
                    p = v.poly(n.kids[-1])
                else:
                    continue
                for mono, c in (p or {}).items():
                    es = [a for a in mono if a in exps or a.startswith('conj:') and a[5:] in exps]
                    cj = [a for a in mono if a.startswith('conj:') and '[' in a]
                    pl = [a for a in mono if '[' in a and not a.startswith('conj:') and not a.startswith('1/')]
                    if len(es) != 1 or len(cj) != 1 or len(pl) != 1 or cj[0][5:].split('[')[0] != pl[0].split('[')[0]:
                        continue
                    flip = -1 if es[0].startswith('conj:') else 1
                    en, ep = exps[es[0].replace('conj:', '')]
                    lag = index(v, g, n, pl[0]) - index(v, g, n, cj[0][5:])
                    # the exponent divided by i: every monomial is w * dt * (part of the lag)
                    common = None
                    for k in ep:
                        common = set(k) if common is None else common & set(k)
                    for k in lag:
                        common = common - set(k)
                    have = {}
                    for k, x in ep.items():
                        r = list(k)
                        for a in common:
                            r.remove(a)
                        have[tuple(sorted(r))] = have.get(tuple(sorted(r)), 0) + complex(x).imag * flip
                    where = '%s:%s' % (cf.rel, n.line)
                    want = {k: complex(x).real for k, x in lag.items()}
                    s = -1 if st is None else st
                    # V ~ exp(s i w t): conj(V[a]) V[b] ~ exp(s i w (b - a) dt), the phase has to cancel it
                    want = {k: -s * x for k, x in want.items()}
                    if not want or not have:
                        continue
                    if same_dir(have, want):
                        rep.ok('lag', '%s: conj(V[a]) V[b] with b - a = %s and phase %s' % (g.name, lag.text(), ep.text()))
                    else:
                        rep.bad('lag', '%s:%s' % (g.name, ep.text()), where, 'the separation of the steps is %s, the phase is exp(%s)' % (lag.text(), ep.scale(flip).text()))


def same_dir(a, b):
    if set(a) != set(b):
        return False
    r = {a[k] / b[k] for k in a}
    return min(r) > 0 and max(r) - min(r) < 1e-9


def index(v, g, at, a):
    """the index polynomial of an element atom"""
    inner = a[a.index('[') + 1:-1]
    for n in g.walk():
        if n.kind == 'ArraySubscriptExpr':
            p = v.poly(n.kids[1])
            if p is not None and p.text() == inner:
                return p
    from ..csrc import atom
    return atom(inner)
