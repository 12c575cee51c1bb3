"""Linear reasoning over integer quantities of a program: polynomials that are >= 0, entailment by a non-negative
combination of the facts (Farkas), and small integer assignments that satisfy the facts and miss the goal."""
from fractions import Fraction

from .csrc import Poly, num, atom


def atoms(p):
    return {a for k in p for a in k}


def degree(p):
    return max([len(k) for k in p] or [0])


def subst(p, a, q):
    """p with atom a replaced by polynomial q"""
    if not any(a in k for k in p):
        return p
    out = Poly()
    for k, v in p.items():
        t = num(v)
        for x in k:
            t = t * (q if x == a else atom(x))
        out = out + t
    return out


def value(p, asg):
    s = 0
    for k, v in p.items():
        for a in k:
            v = v * asg[a]
        s += v
    return s


def combination(rows):
    """is there a non-negative combination of the rows (dicts monomial -> coefficient) whose only term left is a negative constant?
    Phase one of the simplex method with exact fractions and Bland's rule."""
    mons = sorted({k for r in rows for k in r if k != ()})
    n = len(rows)
    eqs = []
    for m in mons:
        c = [Fraction(r.get(m, 0)) for r in rows]
        if any(c):
            eqs.append((c, Fraction(0)))
    eqs.append(([Fraction(-r.get((), 0)) for r in rows], Fraction(1)))
    m = len(eqs)
    # tableau with artificial variables n..n+m-1; the basis starts with them
    tab = [row[:] + [rhs] for row, rhs in eqs]
    basis = list(range(n, n + m))
    # objective: minimise the sum of the artificial variables -> reduced cost of column j = -sum of the rows
    obj = [-sum(r[j] for r in tab) for j in range(n + 1)]
    for _ in range(400):
        j = next((j for j in range(n) if obj[j] < 0), None)
        if j is None:
            break
        best, pick = None, None
        for i in range(m):
            if tab[i][j] > 0:
                q = tab[i][n] / tab[i][j]
                if best is None or q < best or (q == best and basis[i] < basis[pick]):
                    best, pick = q, i
        if pick is None:
            break
        piv = tab[pick][j]
        tab[pick] = [x / piv for x in tab[pick]]
        for i in range(m):
            if i != pick and tab[i][j] != 0:
                f = tab[i][j]
                tp = tab[pick]
                tab[i] = [x - f * y if y else x for x, y in zip(tab[i], tp)]
        f = obj[j]
        obj = [x - f * y for x, y in zip(obj, tab[pick])]
        basis[pick] = j
    return obj[n] == 0


def connected(facts, start):
    seen, todo = [], list(facts)
    have = set(start)
    grew = True
    while grew:
        grew = False
        for f in list(todo):
            a = atoms(f)
            if a & have:
                todo.remove(f)
                seen.append(f)
                if a - have:
                    have |= a
                grew = True
    return seen


_cache = {}


def contradictory(facts):
    """no integers satisfy the facts (all >= 0); sound, not complete"""
    fs = [f for f in facts if f]
    if any(f.const() is not None and f.const() < 0 for f in fs):
        return True
    key = frozenset(frozenset(f.items()) for f in fs)
    if key in _cache:
        return _cache[key]
    r = combination(fs) if fs else False
    if not r and any(degree(f) > 1 for f in fs) and len(fs) <= 26:
        prods = []
        mons = {k for f in fs for k in f if len(k) > 1}
        for i, f in enumerate(fs):
            if degree(f) > 2:
                continue
            for g in fs[i:]:
                if degree(f) + degree(g) > 3:
                    continue
                p = f * g
                if any(k in mons for k in p):
                    prods.append(p)
        if prods:
            r = combination(fs + prods[:150])
    _cache[key] = r
    return r


def entails(facts, goal):
    """goal >= 0 for all the integers that satisfy the facts"""
    c = goal.const()
    if c is not None:
        return c >= 0
    for f in facts:
        d = (goal - f).const()
        if d is not None and d >= 0:
            return True
    neg = (goal + num(1)).scale(-1)
    return contradictory(connected(facts, atoms(goal)) + [neg])


def witness(facts, goal, vague=(), limit=120000):
    """small integers that satisfy the facts and make goal < 0; None when there are none in reach.  Facts about quantities that are
    only approximated (vague) do not count; a goal about them cannot be missed."""
    if atoms(goal) & set(vague):
        return None
    facts = [f for f in facts if not (atoms(f) & set(vague))]
    fs = connected(facts, atoms(goal)) + [(goal + num(1)).scale(-1)]
    order = []
    count = {}
    for f in fs:
        for a in atoms(f):
            count[a] = count.get(a, 0) + 1
    order = sorted(count, key=lambda a: (a not in atoms(goal), -count[a], a))
    pos = {a: i for i, a in enumerate(order)}
    ready = [[] for _ in range(len(order) + 1)]
    for f in fs:
        ready[max([pos[a] + 1 for a in atoms(f)] or [0])].append(f)
    if any(value(f, {}) < 0 for f in ready[0]):
        return None
    budget = [limit]
    asg = {}

    def go(i):
        if i == len(order):
            return True
        for v in (1, 2, 0, 3, 4, -1, 5, -2):
            budget[0] -= 1
            if budget[0] < 0:
                return False
            asg[order[i]] = v
            if all(value(f, asg) >= 0 for f in ready[i + 1]) and go(i + 1):
                return True
        asg.pop(order[i], None)
        return False
    return dict(asg) if go(0) else None
