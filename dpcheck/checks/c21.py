"""C21: thermodynamic functions are mutually consistent (exact algebra of the integrands)."""
import ast
import re
from fractions import Fraction

from ..model import Program
from .. import field as F
from .. import formula as fm

THERMO = {'get_free_energy': 'F', 'get_entropy': 'S', 'get_cv': 'C', 'get_total_energy': 'U'}
NAMES = {'F': 'free energy', 'S': 'entropy', 'C': 'heat capacity', 'U': 'total energy'}
UNITS = {'kj': 1000, 'j': 1, 'kcal': 4184, 'cal': Fraction(4184, 1000)}


def thermo_module(prog):
    best = None
    for m in prog.modules.values():
        n = sum(1 for x in THERMO if x in m.funcs)
        if n and (best is None or n > best[0]):
            best = (n, m)
    return best[1] if best else None


def fun(f, selfv=None):
    return fm.Fun(f.node, None, f.mod, f.cls, selfv, f)


def labels(template):
    """(quantity, scale or None, [argument positions]) for every labelled line of a printed text"""
    out = {}
    for line, pos in fm.fields(template):
        low = line.lower()
        q = None
        if 'free energy' in low or 'helmholtz' in low:
            q = 'F'
        elif 'entropy' in low:
            q = 'S'
        elif re.search(r'\bcv\b|\bc_v\b|heat capacity', low):
            q = 'C'
        elif 'total energy' in low or 'internal energy' in low:
            q = 'U'
        if q is None:
            continue
        u = re.search(r'\b(kj|j|kcal|cal)\s*/', low)
        out.setdefault((q, UNITS[u.group(1)] if u else None), []).append(pos)
    return out


class Ctx:
    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        self.rel = self.relevant()

    def relevant(self):
        """functions that take part: those of the module of the laws, and those that use them or integrate"""
        direct = set()
        funcs = {}
        calls = {}
        for f in self.prog.functions():
            if isinstance(f.node, ast.Lambda):
                continue
            funcs[f.qual] = f
            names = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    names.add(n.attr)
                elif isinstance(n, ast.Name):
                    names.add(n.id)
            calls[f.qual] = names
            if f.mod is self.mod or names & set(THERMO) or names & fm.INTEGRALS or 'get_thermal_properties_dict' in names:
                direct.add(f.qual)
        ch = True
        while ch:
            ch = False
            simple = {funcs[q].name for q in direct}
            for q, names in calls.items():
                if q not in direct and names & (simple & {x for x in simple if 'thermal' in x or x in THERMO}):
                    direct.add(q)
                    ch = True
        # small helpers without loops or state
        for q, f in funcs.items():
            if len(f.node.body) <= 6 and all(isinstance(n, (ast.Assign, ast.AugAssign, ast.Return)) or
                                             (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) for n in f.node.body) \
                    and not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                direct.add(q)
        return direct

    def __call__(self, f):
        return f.qual in self.rel


def poly_f(v):
    """integrands per grid, or None"""
    return {k: x for k, x in v.parts.items()} if isinstance(v, fm.Int) else None


def generic(parts):
    """merge the parts of one grid whose exclusions differ only at zero frequency"""
    out = {}
    for (g, ex, gd), r in parts.items():
        k = (g, frozenset(e for e in ex if not e.endswith('==0')))
        out[k] = out[k] + r if k in out else r
    return {k: r for k, r in out.items() if not r.zero()}


def scale(parts, s):
    return {k: r * s for k, r in parts.items()}


def minus(a, b):
    out = dict(a)
    for k, r in b.items():
        out[k] = out[k] - r if k in out else -r
    return out


def undecidable(r):
    return any(a[0] == 'r' or (a[0] == 'l' and a[1][0] == 'poly') for p in (r.n, r.d) for a in p.atoms())


def symbols(parts):
    out = set()
    for (g, ex), r in parts.items():
        out |= atoms_of(r)
    return out


def atoms_of(r):
    out = set()

    def rec(p):
        for a in p.atoms():
            if a[0] == 'v':
                out.add(a[1])
            elif a[0] == 'e':
                rec(F.Poly({a[1]: Fraction(1)}))
            elif a[0] == 'l' and a[1][0] == 'em1':
                rec(F.Poly({a[1][1]: Fraction(1)}))
            elif a[0] == 'l' and a[1][0] == 'sym':
                rec(F.Poly({((a[1][1], Fraction(1)),): Fraction(1)}))
    rec(r.n)
    rec(r.d)
    return out


def law(a, b):
    """True / False / None: the two sums of integrals are the same for every data"""
    d = minus(a, b)
    left = {k: r for k, r in d.items() if not r.zero()}
    if not left:
        return True, None
    for k, r in left.items():
        if undecidable(r):
            return None, k
    k = sorted(left, key=repr)[0]
    return False, (k, left[k])


def family(sym):
    """what kind of thing a symbol is (to tell another density of states from a text that was not followed)"""
    return re.sub(r'\(.*\)', '()', sym)


def run(rep):
    prog = Program()
    mod = thermo_module(prog)
    rep.need(mod is not None, 'no module defines the thermodynamic functions')
    rep.rule('law', 'the integrands of the thermodynamic functions satisfy S = -dF/dT, U = F + T S and Cv = dU/dT identically in '
             'temperature, frequency and density of states, in the units in which they are printed')
    rep.rule('range', 'the functions leave out the same points of the frequency range')
    rep.rule('zero', 'the point at zero frequency contributes a finite amount')
    rep.rule('client', 'the results given together come from one temperature, one frequency range and one density of states: '
             'F + T S = U holds for what is returned or printed, corrections included')
    rep.rule('label', 'each printed quantity is the one its label names')
    rep.rule('alike', 'two densities of states that are compared were scaled in the same way')
    ctx = Ctx(prog, mod)
    # ---- units printed
    scales = {}
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and '{' in n.value:
                for (q, s), pos in labels(n.value).items():
                    if s is not None:
                        scales.setdefault(q, set()).add(s)
    unit = {}
    for q, d in (('F', 1000), ('U', 1000), ('S', 1), ('C', 1)):
        s = scales.get(q, {d})
        unit[q] = next(iter(s)) if len(s) == 1 else None
    # ---- the functions themselves
    integr = {}
    where = {}
    for name, q in THERMO.items():
        f = mod.funcs.get(name)
        r = mod.resolve(name) if f is None else ('func', f)
        if r is None or r[0] != 'func':
            rep.skip('law', NAMES[q], 'no function ' + name)
            continue
        f = r[1]
        where[q] = f
        params = f.params()
        if len(params) < 3:
            rep.skip('law', NAMES[q], 'other parameters')
            continue
        args = [fm.Obj('temperature'), fm.Obj('frequency'), fm.Obj('dos')]
        try:
            rs = fm.readings(prog, fun(f), lambda: [fm.Obj('temperature'), fm.Obj('frequency'), fm.Obj('dos')], {}, ctx,
                             positive=('temperature', 'frequency', 'dos'))
        except (fm.Undecided, F.Unknown) as e:
            rep.skip('law', NAMES[q], str(e) or 'not followed')
            continue
        got = []
        for tr, v, ev in rs:
            if v is None:
                continue
            if isinstance(v, fm.Int):
                got.append(v)
            else:
                got = None
                break
        if not got:
            rep.skip('law', NAMES[q], 'not an integral over the range')
            continue
        if any(set(a.parts) != set(got[0].parts) or not law(generic(a.parts), generic(got[0].parts))[0] for a in got[1:]):
            rep.skip('law', NAMES[q], 'depends on an option')
            continue
        v = got[0]
        bad = symbols(generic(v.parts)) - {'temperature', 'frequency', 'dos', 'pi'} - set(fm.BASE)
        bad = {b for b in bad if not b.startswith('prime')}
        if bad or any(g != 'frequency' for g, ex, gd in v.parts):
            rep.skip('law', NAMES[q], 'uses values that are not followed: %s' % sorted(bad)[:3])
            continue
        integr[q] = v

    def w(q):
        return where[q].where()
    T = F.var('temperature')

    def joules(q):
        g = {}
        for (grid, ex), r in generic(integr[q].parts).items():
            k = (grid, frozenset())
            g[k] = g[k] + r if k in g else r
        return scale(g, F.num(unit[q]))

    def dT(parts):
        return {k: F.diff(r, 'temperature') for k, r in parts.items()}
    laws = [('S = -dF/dT', 'S', lambda: (joules('S'), scale(dT(joules('F')), F.num(-1))), 'FS'),
            ('U = F + T S', 'U', lambda: (joules('U'), minus(joules('F'), scale(joules('S'), -T))), 'FSU'),
            ('Cv = dU/dT', 'C', lambda: (joules('C'), dT(joules('U'))), 'UC'),
            ('Cv = T dS/dT', 'C', lambda: (joules('C'), scale(dT(joules('S')), T)), 'SC'),
            ('U = F - T dF/dT', 'U', lambda: (joules('U'), minus(joules('F'), scale(dT(joules('F')), T))), 'FU')]
    for text, q, sides, needs in laws:
        if any(x not in integr or unit[x] is None for x in needs):
            rep.skip('law', text, 'a function is not followed')
            continue
        try:
            a, b = sides()
            r, det = law(a, b)
        except F.Unknown as e:
            rep.skip('law', text, str(e))
            continue
        if r:
            rep.ok('law', '%s (%s)' % (text, ', '.join(where[x].name for x in needs)))
        elif r is None:
            rep.skip('law', text, 'normal form not decided')
        else:
            rep.bad('law', text, w(q), '%s does not hold: %s, %s' % (
                text, ' and '.join('%s (%s:%d)' % (where[x].name, where[x].mod.rel, where[x].node.lineno) for x in needs),
                'the difference of the integrands is ' + F.show(det[1], 200)))
    # ---- range
    exs = {}
    for q, v in integr.items():
        exs[q] = frozenset().union(*[ex for g, ex, gd in v.parts]) if v.parts else frozenset()
    plain = {q: frozenset(e for e in x if not e.endswith('==0')) for q, x in exs.items()}
    if plain:
        common = [set(x) for x in plain.values()]
        allx = set().union(*common)
        for q in sorted(plain):
            extra = plain[q] - frozenset.intersection(*plain.values())
            if not extra:
                rep.ok('range', NAMES[q] + ' keeps the points the others keep')
            for e in sorted(extra):
                others = [NAMES[x] for x in plain if e not in plain[x]]
                rep.bad('range', '%s:%s' % (where[q].name, e), w(q), '%s leaves out %s of the frequency range, %s do not' % (
                    NAMES[q], e, ' and '.join(others)))
    # ---- zero frequency
    for q, v in sorted(integr.items()):
        gone = any(e.endswith('==0') or e.startswith('frequency<=') or e == 'frequency<=0' for e in exs[q])
        guard = all(gd for g, ex, gd in v.parts)
        first = 'point 0' in exs[q]
        if gone or (guard and not diverges(v)):
            rep.ok('zero', '%s at zero frequency' % NAMES[q])
        elif first:
            rep.ok('zero', '%s leaves out the first point' % NAMES[q])
        elif not guard and regular(v):
            rep.ok('zero', '%s is regular at zero frequency' % NAMES[q])
        else:
            rep.bad('zero', where[q].name, w(q), '%s of a frequency range that begins at zero: the term at zero frequency is %s and is not left out' % (
                NAMES[q], 'infinite' if diverges(v) else 'not a number'))
    # ---- clients
    clients(rep, prog, mod, ctx, unit)


def diverges(v):
    """does the integrand contain the logarithm of the frequency factor alone (infinite, not nan, at zero)?"""
    for r in v.parts.values():
        for p in (r.n,):
            for m in p.t:
                logs = [a for a, e in m if a[0] == 'l' and a[1][0] == 'em1']
                freq = [a for a, e in m if a == ('v', 'frequency')]
                if logs and not freq:
                    # the same logarithm with another factor that is infinite gives nan
                    return not any(not any(a[0] == 'l' for a, e in m2) and ratio(r) for m2 in p.t)
    return False


def ratio(r):
    return r.d.single() is None


def regular(v):
    """no division by exp(z)-1 and no logarithm: nothing special happens at zero"""
    for r in v.parts.values():
        if r.d.single() is None or any(a[0] == 'l' for a in r.n.atoms()):
            return False
    return True


def clients(rep, prog, mod, ctx, unit):
    done = set()
    for f in prog.functions():
        if f.mod is mod or f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        used = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node)
                if isinstance(n, (ast.Attribute, ast.Name))}
        names = used & set(THERMO)
        text = any(isinstance(n, ast.Constant) and isinstance(n.value, str) and labels(n.value) for n in ast.walk(f.node))
        if len(names) < 2 and not (text and ctx(f)):
            continue
        if f.qual in done:
            continue
        done.add(f.qual)
        params = f.params()
        selfv = fm.Obj('self', cls=f.cls) if f.cls is not None and not f.is_static() else None
        ps = params[1:] if selfv is not None else params

        def mk(f=f):
            return [fm.Obj(p) for p in ps]
        try:
            rs = fm.readings(prog, None or fun(f, None), (lambda: ([fm.Obj('self', cls=f.cls)] if selfv is not None else []) + mk()), {}, ctx,
                             hooks=hooks(prog))
        except (fm.Undecided, F.Unknown, fm.Skip) as e:
            rep.skip('client', f.qual, str(e) or 'not followed')
            continue
        for tr, v, ev in rs:
            sets = []
            if isinstance(v, fm.Tup):
                sets.append(('returned', [x for x in v.items]))
            for e in ev:
                if e[0] != 'format':
                    continue
                lab = labels(e[1])
                cols = {}
                for (q, s), pos in lab.items():
                    for j, p in enumerate(pos):
                        val = None
                        if isinstance(p, int) and p < len(e[2]):
                            val = e[2][p]
                        elif isinstance(p, str) and p in e[3]:
                            val = e[3][p]
                        if val is None:
                            continue
                        cols.setdefault(j, {})[q] = (val, s)
                        tag = kind(val)
                        if tag is None:
                            rep.skip('label', '%s: %s' % (f.qual, NAMES[q]), 'value not followed')
                        elif tag != q:
                            rep.bad('label', '%s:%s' % (f.qual, NAMES[q]), '%s:%d' % (f.mod.rel, e[4].lineno),
                                    'what is printed as %s is the %s' % (NAMES[q], NAMES[tag]))
                        else:
                            rep.ok('label', '%s: column %d of %s' % (f.qual, j, NAMES[q]))
                for j, c in sorted(cols.items()):
                    sets.append(('printed in column %d' % (j + 1), [x for x, s in c.values()]))
            for what, items in sets:
                have = {}
                for x in items:
                    k = kind(x)
                    if k is not None and isinstance(x, fm.Int):
                        have.setdefault(k, []).append(x)
                if any(len(x) > 1 for x in have.values()):
                    continue
                have = {k: x[0] for k, x in have.items()}
                check_set(rep, f, what, have, unit, tr)
        alike(rep, prog, f, rs)


def hooks(prog):
    return {}


def kind(v):
    t = getattr(v, 'tag', None)
    if isinstance(t, str) and t in THERMO:
        return THERMO[t]
    if isinstance(v, fm.Num) and v.rat.n.single() is not None:
        ks = {kind(fm.Obj(a[1])) for a, e in v.rat.n.single()[0] if a[0] == 'v' and e == 1} - {None}
        return next(iter(ks)) if len(ks) == 1 else None
    if isinstance(v, fm.Obj):
        m = re.search(r"'(free_energy|entropy|heat_capacity)'", v.name)
        if m:
            return {'free_energy': 'F', 'entropy': 'S', 'heat_capacity': 'C'}[m.group(1)]
    return None


def sides(v):
    return generic(v.parts)


def check_set(rep, f, what, have, unit, tr):
    cond = ' when ' + ', '.join(('' if v else 'not ') + short(k) for k, v in tr) if tr else ''
    key = '%s:%s' % (f.qual, what)
    if all(x in have for x in 'FSU') and all(unit[x] is not None for x in 'FSU'):
        temp = temperature(have['S']), temperature(have['F']), temperature(have['U'])
        temp = {t for t in temp if t is not None}
        if len(temp) == 1:
            T = F.var(next(iter(temp)))
            try:
                a = scale(merge(sides(have['U'])), F.num(unit['U']))
                b = minus(scale(merge(sides(have['F'])), F.num(unit['F'])), scale(merge(sides(have['S'])), -T * F.num(unit['S'])))
                r, det = law(a, b)
            except F.Unknown as e:
                r, det = None, str(e)
            if r:
                rep.ok('client', '%s %s: U = F + T S%s' % (f.qual, what, cond))
            elif r is None:
                rep.skip('client', key, 'normal form not decided')
            else:
                k, d = det
                sa, sb = symbols(a), symbols(b)
                if sa != sb and {family(x) for x in sa ^ sb} - {family(x) for x in sa & sb} and any('(line' in x for x in sa ^ sb):
                    rep.skip('client', key, 'values not followed: %s' % sorted(sa ^ sb)[:2])
                else:
                    rep.bad('client', key, f.where(), 'what is %s%s does not satisfy U = F + T S: the difference of the integrands over %s is %s' % (
                        what, cond, short(k[0]), F.show(d, 160)))
        elif len(temp) > 1:
            if any('(line' in t for t in temp):
                rep.skip('client', key, 'temperature not followed')
            else:
                rep.bad('client', key, f.where(), 'the free energy, the entropy and the total energy are %s for different temperatures: %s' % (
                    what, ', '.join(sorted(short(t) for t in temp))))
    if 'C' in have and 'S' in have:
        a, b = grid_of(have['C']), grid_of(have['S'])
        ta, tb = temperature(have['C']), temperature(have['S'])
        da, db = dos_of(have['C']), dos_of(have['S'])
        if None in (a, b, ta, tb, da, db) or any('(line' in str(x) for x in (a, b, ta, tb, da, db)):
            rep.skip('client', key + ' (Cv)', 'arguments not followed')
        elif (a, ta, da) == (b, tb, db):
            rep.ok('client', '%s %s: Cv and S of the same data%s' % (f.qual, what, cond))
        else:
            rep.bad('client', key + ' (Cv)', f.where(), 'the heat capacity and the entropy %s%s are of different %s' % (
                what, cond, 'frequency ranges' if a != b else 'temperatures' if ta != tb else 'densities of states'))


def merge(parts):
    out = {}
    for (g, ex), r in parts.items():
        k = (g, frozenset())
        out[k] = out[k] + r if k in out else r
    return out


def short(t):
    t = re.sub(r'\(.*\)', '(..)', t)
    return t if len(t) < 60 else t[:57] + '...'


def temperature(v):
    """the symbol T of exp(h f/(k T))"""
    out = set()
    for r in v.parts.values():
        for p in (r.n, r.d):
            for a in p.atoms():
                m = a[1] if a[0] == 'e' else a[1][1] if a[0] == 'l' and a[1][0] == 'em1' else ()
                for b, e in m:
                    if e == -1 and b[0] == 'v' and b[1] not in fm.BASE:
                        out.add(b[1])
    return next(iter(out)) if len(out) == 1 else None


def grid_of(v):
    g = {k[0] for k in v.parts}
    return next(iter(g)) if len(g) == 1 else None


def dos_of(v):
    """the symbols of the integrand besides constants, grid and temperature (with their exponents)"""
    t, g = temperature(v), grid_of(v)
    out = set()
    for r in v.parts.values():
        s = {x for x in atoms_of(r) if x not in fm.BASE and x not in (t, g, 'pi') and not x.startswith('prime')}
        out |= s
    return tuple(sorted(out)) or None


def alike(rep, prog, f, rs):
    """every integrand with two densities of states: both carry the same factors"""
    for tr, v, ev in rs:
        vals = list(v.items) if isinstance(v, fm.Tup) else [v]
        for x in vals:
            if not isinstance(x, fm.Int):
                continue
            for (g, ex, gd), r in x.parts.items():
                # linear terms: symbols that are elements of results of one function
                terms = {}
                for m, c in r.n.t.items():
                    syms = [a[1] for a, e in m if a[0] == 'v' and e == 1 and '(' in a[1] and a[1].endswith('[1]')]
                    rest = tuple(sorted((a[1], e) for a, e in m if a[0] == 'v' and e != 1 and a[1] not in fm.BASE and '(' in a[1]))
                    for s in syms:
                        if s == g:
                            continue
                        terms.setdefault(s, set()).add(rest)
                roots = {}
                for s in terms:
                    roots.setdefault(family(s), []).append(s)
                for fam, ss in roots.items():
                    if len(ss) < 2:
                        continue
                    forms = {}
                    for s in ss:
                        base = s[:-3]
                        forms[s] = frozenset(tuple((re.sub(r'\s+', ' ', replace_all(n, ss)), e) for n, e in rest)
                                             for rest in terms[s])
                    if len(set(forms.values())) == 1:
                        rep.ok('alike', '%s: %d densities of states %s%s' % (f.qual, len(ss), short(fam), cond_text(tr)))
                    else:
                        norm = {s: any(rest for rest in fs) for s, fs in forms.items()}
                        if len(set(norm.values())) == 2:
                            rep.bad('alike', f.qual, f.where(), 'a density of states that was scaled is compared with one that was not%s' % cond_text(tr))
                        else:
                            rep.skip('alike', f.qual, 'scaled by values that are not compared')


def replace_all(n, ss):
    for s in sorted(ss, key=len, reverse=True):
        n = n.replace(s, 'DOS').replace(s[:-3], 'PAIR')
    return n


def cond_text(tr):
    return ' when ' + ', '.join(('' if v else 'not ') + short(k) for k, v in tr) if tr else ''
