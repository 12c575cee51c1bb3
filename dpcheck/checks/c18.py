"""C18: element tables agree with each other and with the periodic table."""
import ast

from ..model import Program

SYM = ('X H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr '
       'Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt '
       'Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn').split()
LATE = {113: ('Uut', 'Nh'), 114: ('Uuq', 'Fl'), 115: ('Uup', 'Mc'), 116: ('Uuh', 'Lv'), 117: ('Uus', 'Ts'), 118: ('Uuo', 'Og')}
# standard atomic weights (0: no stable isotope, the table may give none or the mass number of a long-lived one)
MASS = [0, 1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998, 20.180, 22.990, 24.305, 26.982, 28.085,
        30.974, 32.06, 35.45, 39.948, 39.098, 40.078, 44.956, 47.867, 50.942, 51.996, 54.938, 55.845, 58.933, 58.693,
        63.546, 65.38, 69.723, 72.630, 74.922, 78.971, 79.904, 83.798, 85.468, 87.62, 88.906, 91.224, 92.906, 95.95, 0,
        101.07, 102.91, 106.42, 107.87, 112.41, 114.82, 118.71, 121.76, 127.60, 126.90, 131.29, 132.91, 137.33, 138.91,
        140.12, 140.91, 144.24, 0, 150.36, 151.96, 157.25, 158.93, 162.50, 164.93, 167.26, 168.93, 173.05, 174.97, 178.49,
        180.95, 183.84, 186.21, 190.23, 192.22, 195.08, 196.97, 200.59, 204.38, 207.2, 208.98, 0, 0, 0, 0, 0, 0, 232.04,
        231.04, 238.03] + [0] * 26
RADIO = {43: (96, 100), 61: (143, 148), 84: (207, 211), 85: (208, 212), 86: (210, 223), 87: (221, 225), 88: (222, 229),
         89: (224, 229)}


class Unknown(Exception):
    pass


def fold(n, mod):
    """constant folding of literal tables (also of tables built from another by a comprehension)"""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, (ast.List, ast.Tuple)):
        return [fold(x, mod) for x in n.elts]
    if isinstance(n, ast.Dict):
        out = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                out += fold(v, mod).items_list()
            out.append((fold(k, mod), fold(v, mod)))
        return Table(out)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -fold(n.operand, mod)
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left, mod), fold(n.right, mod)
        try:
            return {ast.Add: lambda: a + b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Sub: lambda: a - b}[type(n.op)]()
        except (KeyError, TypeError, ZeroDivisionError):
            raise Unknown
    if isinstance(n, ast.Name):
        vs = definitions(mod, n.id)
        if len(vs) == 1:
            return fold(vs[0], mod)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict':
        if not n.args and all(k.arg for k in n.keywords):
            return Table([(k.arg, fold(k.value, mod)) for k in n.keywords])
        if len(n.args) == 1 and not n.keywords:
            v = fold(n.args[0], mod)
            if isinstance(v, Table):
                return v
            if all(isinstance(x, list) and len(x) == 2 for x in v):
                return Table([(a, b) for a, b in v])
    raise Unknown


class Table:
    def __init__(self, items):
        self.items = items

    def items_list(self):
        return list(self.items)


def definitions(mod, name):
    out = []
    for n in mod.tree.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name) and n.target.id == name:
            out.append(n.value)
    return out


def run(rep):
    prog = Program()
    rep.rule('row', 'row i of the element table is element i: its number, its symbol and its mass')
    rep.rule('symbol', 'the symbol map gives each symbol its atomic number, once, for every element')
    rep.rule('mass-unique', 'two elements are never taken for each other when identified by mass')
    rep.rule('mass-found', 'the standard atomic weight of an element identifies exactly one element')
    rep.rule('column', 'numbers, symbols and masses are read from the right column of the table')
    rep.rule('radius', 'the drawing radii name real elements once, and every element up to Mt')
    tables, maps, radii = [], [], []
    names = {}
    for m in prog.all_modules():
        for n in m.tree.body:
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                continue
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(tg, ast.Name):
                continue
            try:
                v = fold(n.value, m)
            except (Unknown, RecursionError):
                continue
            if isinstance(v, list) and len(v) > 50 and all(isinstance(r, list) and len(r) >= 4 for r in v):
                tables.append((m, tg.id, v, n))
                names[(m.name, tg.id)] = 'table'
            if isinstance(v, Table) and len(v.items) > 50:
                ks = [k for k, _ in v.items]
                vs = [x for _, x in v.items]
                if all(isinstance(k, str) for k in ks):
                    if all(isinstance(x, int) for x in vs):
                        maps.append((m, tg.id, v, n))
                    elif all(isinstance(x, (int, float)) for x in vs):
                        radii.append((m, tg.id, v, n))
    rep.need(tables or maps or any('atom_data' in m.src for m in prog.all_modules()), 'the element tables are gone')
    if not tables:
        rep.skip('row', 'element table', 'not a literal table any more')
    if not maps:
        rep.skip('symbol', 'symbol map', 'not a literal table any more')
    for m, name, v, node in tables:
        where = '%s:%d' % (m.rel, node.lineno)
        try:
            lines = [e.lineno for e in node.value.elts]
        except AttributeError:
            lines = [node.lineno] * len(v)
        if len(lines) != len(v):
            lines = [node.lineno] * len(v)
        seen = {}
        if len(v) < 119:
            rep.bad('row', '%s:length' % name, where, 'the table %s has %d rows, elements up to 118 need 119' % (name, len(v)))
        for i, r in enumerate(v):
            w = '%s:%d' % (m.rel, lines[i])
            want = LATE.get(i) or ((SYM[i],) if i < len(SYM) else None)
            bad = None
            if r[0] != i:
                bad = 'row %d has atomic number %r' % (i, r[0])
            elif want is not None and r[1] not in want:
                bad = 'element %d is %s, not %r' % (i, want[0], r[1])
            elif r[1] in seen:
                bad = 'symbol %r is used for elements %d and %d' % (r[1], seen[r[1]], i)
            else:
                mass = r[3] or 0
                ref = MASS[i] if i < len(MASS) else 0
                if ref:
                    if abs(mass - ref) > 1e-3 * ref:
                        bad = 'the mass of %s is %s, not %s' % (r[1], ref, r[3])
                elif mass and i in RADIO and not RADIO[i][0] <= mass <= RADIO[i][1]:
                    bad = 'the mass of %s is not %s' % (r[1], r[3])
                elif mass and i > 92 and not 230 < mass < 300:
                    bad = 'the mass of %s is not %s' % (r[1], r[3])
                elif mass and i == 0:
                    bad = 'the placeholder has a mass'
            seen[r[1]] = i
            if bad:
                rep.bad('row', '%s:%d' % (name, i), w, bad)
            else:
                rep.ok('row', '%s row %d: %s, mass %s' % (name, i, r[1], r[3]))
    for m, name, v, node in maps:
        got = {}
        for k, x in v.items:
            if k in got:
                rep.bad('symbol', '%s:%s' % (name, k), '%s:%d' % (m.rel, node.lineno), 'symbol %s is given twice' % k)
            got[k] = x
        for i in range(1, 119):
            ks = [k for k in (LATE.get(i) or (SYM[i],)) if k in got]
            if tables:
                tab = tables[0][2]
                if i < len(tab) and tab[i][1] not in got:
                    rep.bad('symbol', '%s:%d' % (name, i), '%s:%d' % (m.rel, node.lineno),
                            'element %d (%s in the element table) is not in %s' % (i, tab[i][1], name))
                    continue
            if not ks:
                rep.bad('symbol', '%s:%d' % (name, i), '%s:%d' % (m.rel, node.lineno), 'element %d is not in %s' % (i, name))
            elif any(got[k] != i for k in ks):
                rep.bad('symbol', '%s:%d' % (name, i), '%s:%d' % (m.rel, node.lineno),
                        '%s maps %s to %s, its number is %d' % (name, ks[0], got[ks[0]], i))
            else:
                rep.ok('symbol', '%s: %s -> %d' % (name, ks[0], i))
        known = set(SYM) | {s for x in LATE.values() for s in x}
        for k in got:
            if k not in known:
                rep.bad('symbol', '%s:%s' % (name, k), '%s:%d' % (m.rel, node.lineno), '%s is not an element' % k)
    known = set(SYM) | {s for x in LATE.values() for s in x} | {'D', 'T'}
    for m, name, v, node in radii:
        ks = [k for k, _ in v.items]
        if len(set(ks) & known) < 40:
            continue
        bad = [k for k in ks if k not in known] + sorted({k for k in ks if ks.count(k) > 1}) + \
              [s for s in SYM[1:110] if s not in ks]
        if bad:
            rep.bad('radius', '%s:%s' % (name, bad[0]), '%s:%d' % (m.rel, node.lineno),
                    'wrong, repeated or missing symbols in %s: %s' % (name, ', '.join(bad)))
        else:
            rep.ok('radius', '%s: %d symbols' % (name, len(ks)))
    for m, name, v, node in tables:
        identify(rep, prog, m, name, v)


def identify(rep, prog, tm, tname, tab):
    """places that walk through the table looking for an element, and columns that are read by number"""
    for m in prog.all_modules():
        local = {tname} if m is tm else set()
        for k, x in m.imports.items():
            r = m.resolve(k)
            if r and r[0] == 'value' and k == tname:
                local.add(k)
        if not local:
            continue
        for f in ast.walk(m.tree):
            # rows: for row in table / table[i]
            rows = set()
            if isinstance(f, (ast.For, ast.comprehension)) and isinstance(f.iter, ast.Name) and f.iter.id in local:
                if isinstance(f.target, ast.Name):
                    rows.add(f.target.id)
                elif isinstance(f.target, ast.Tuple):
                    unpack = [t.id if isinstance(t, ast.Name) else None for t in f.target.elts]
                    scope = f if isinstance(f, ast.For) else f._parent
                    by_mass(rep, m, scope, tab, lambda e: unpack.index(e.id) if isinstance(e, ast.Name) and e.id in unpack else None)
                    continue
            if rows:
                scope = f if isinstance(f, ast.For) else f._parent

                def col(e, rows=rows):
                    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in rows \
                            and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                        return e.slice.value
                    return None
                by_mass(rep, m, scope, tab, col)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) \
                    and n.value.value.id in local and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                # table[number][column] stored somewhere whose name says what it is
                tgt = destination(n)
                want = None
                if tgt:
                    t = tgt.lower()
                    want = 3 if 'mass' in t else (1 if 'element' in t or 'symbol' in t else (0 if 'number' in t else None))
                if want is None:
                    continue
                c = n.slice.value if n.slice.value >= 0 else n.slice.value + len(tab[0])
                if c != want:
                    rep.bad('column', '%s:%s' % (m.rel, tgt), '%s:%d' % (m.rel, n.lineno),
                            '%s is taken from column %d of %s, it is column %d' % (tgt, c, tname, want))
                else:
                    rep.ok('column', '%s from column %d (%s:%d)' % (tgt, c, m.rel, n.lineno))


def destination(n):
    p = n
    while p is not None:
        q = getattr(p, '_parent', None)
        if isinstance(q, ast.Assign) and p is q.value:
            t = q.targets[0]
            return t.attr if isinstance(t, ast.Attribute) else (t.id if isinstance(t, ast.Name) else None)
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == 'append':
            t = q.func.value
            return t.attr if isinstance(t, ast.Attribute) else (t.id if isinstance(t, ast.Name) else None)
        if isinstance(q, ast.stmt):
            return None
        p = q
    return None


def by_mass(rep, m, scope, tab, col):
    for n in ast.walk(scope):
        key = None
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = n.left, n.comparators[0]
            if isinstance(n.ops[0], ast.Eq):
                for x in (a, b):
                    key = key or rounding(x, col)
            elif isinstance(n.ops[0], (ast.Lt, ast.LtE)) and isinstance(b, ast.Constant):
                d = difference(a, col)
                if d is not None:
                    key = (d, ('tol', b.value, isinstance(n.ops[0], ast.LtE)))
            elif isinstance(n.ops[0], (ast.Gt, ast.GtE)) and isinstance(a, ast.Constant):
                d = difference(b, col)
                if d is not None:
                    key = (d, ('tol', a.value, isinstance(n.ops[0], ast.GtE)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('isclose', 'allclose') and len(n.args) >= 2:
            tol = {'rtol': 1e-5, 'atol': 1e-8}
            for k in n.keywords:
                if isinstance(k.value, ast.Constant) and k.arg in tol:
                    tol[k.arg] = k.value.value
            for x in n.args[:2]:
                if col(x) is not None:
                    key = (col(x), ('close', tol['rtol'], tol['atol']))
        if key is None:
            continue
        c, how = key
        where = '%s:%d' % (m.rel, n.lineno)
        if c != 3:
            rep.bad('column', '%s:identify' % m.rel, where, 'elements are identified by column %d of the table, the mass is column 3' % c)
            continue
        rep.ok('column', 'identification by column 3 (%s)' % where)
        # what is kept of the matching row
        for s in scope.body if isinstance(scope, ast.For) else [scope]:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and x.args:
                    cc = col(x.args[0])
                    t = x.func.value
                    t = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '')
                    if cc is not None and ('element' in t or 'symbol' in t):
                        if cc != 1:
                            rep.bad('column', '%s:%s' % (m.rel, t), '%s:%d' % (m.rel, x.lineno),
                                    'the element is taken from column %d, the symbol is column 1' % cc)
                        else:
                            rep.ok('column', 'symbol from column 1 (%s:%d)' % (m.rel, x.lineno))
        clash = []
        have = [(r[1], r[3]) for r in tab if r[3]]
        for i, (s, a) in enumerate(have):
            for t, b in have[i + 1:]:
                if same(a, b, how):
                    clash.append('%s/%s' % (s, t))
            if same(0, a, how):
                clash.append('%s/none' % s)
        lost = [tab[i][1] for i in range(1, len(tab)) if i < len(MASS) and MASS[i] and tab[i][3]
                and sum(1 for _, b in have if same(MASS[i], b, how)) != 1]
        if lost:
            rep.bad('mass-found', m.rel, where, 'the standard atomic weight of these elements does not lead to exactly one element: '
                    + ', '.join(lost[:10]))
        else:
            rep.ok('mass-found', 'every standard atomic weight leads to one element (%s)' % where)
        if clash:
            rep.bad('mass-unique', m.rel, where, 'elements that the comparison cannot tell apart: ' + ', '.join(clash[:8]))
        else:
            rep.ok('mass-unique', '%d masses are pairwise distinct under %s (%s)' % (len(have), how, where))


def rounding(x, col):
    """the comparison key: format or round of a column"""
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and len(x.args) == 1 \
            and isinstance(x.func.value, ast.Constant) and col(x.args[0]) is not None:
        return col(x.args[0]), ('format', x.func.value.value)
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'format' and len(x.args) == 2 \
            and isinstance(x.args[1], ast.Constant) and col(x.args[0]) is not None:
        return col(x.args[0]), ('format', '{0:%s}' % x.args[1].value)
    if isinstance(x, ast.JoinedStr) and len(x.values) == 1 and isinstance(x.values[0], ast.FormattedValue) \
            and col(x.values[0].value) is not None and x.values[0].format_spec is not None:
        return col(x.values[0].value), ('format', '{0:%s}' % x.values[0].format_spec.values[0].value)
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
        y = x.right.elts[0] if isinstance(x.right, ast.Tuple) and len(x.right.elts) == 1 else x.right
        if col(y) is not None:
            return col(y), ('percent', x.left.value)
    if isinstance(x, ast.Call):
        name = x.func.id if isinstance(x.func, ast.Name) else (x.func.attr if isinstance(x.func, ast.Attribute) else '')
        if x.args and col(x.args[0]) is not None:
            nd = x.args[1].value if len(x.args) > 1 and isinstance(x.args[1], ast.Constant) else None
            for k in x.keywords:
                if k.arg in ('ndigits', 'decimals') and isinstance(k.value, ast.Constant):
                    nd = k.value.value
            if name in ('round', 'around', 'round_') and len(x.args) + len(x.keywords) <= 2:
                return col(x.args[0]), ('round', nd or 0)
            if name in ('int', 'floor'):
                return col(x.args[0]), ('floor',)
    if col(x) is not None and col(x) == 3:
        return 3, ('equal',)
    return None


def difference(x, col):
    if isinstance(x, ast.Call) and x.args:
        name = x.func.id if isinstance(x.func, ast.Name) else (x.func.attr if isinstance(x.func, ast.Attribute) else '')
        if name in ('abs', 'fabs', 'absolute') and isinstance(x.args[0], ast.BinOp) and isinstance(x.args[0].op, ast.Sub):
            for y in (x.args[0].left, x.args[0].right):
                if col(y) is not None:
                    return col(y)
    return None


def same(a, b, how):
    """could one mass be taken for both elements?"""
    k = how[0]
    if k == 'format':
        return how[1].format(a) == how[1].format(b)
    if k == 'percent':
        return how[1] % a == how[1] % b
    if k == 'round':
        return round(a, how[1]) == round(b, how[1])
    if k == 'floor':
        return int(a) == int(b)
    if k == 'tol':
        return abs(a - b) < how[1] or (how[2] and abs(a - b) <= how[1])
    if k == 'close':
        return abs(a - b) <= how[2] + how[1] * abs(b)
    return a == b
