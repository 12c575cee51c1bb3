"""Exact normal forms of elementary formulas: generalised Laurent polynomials in symbols, exponentials and logarithms.

A monomial maps atoms to rational exponents.  Atoms:
  ('v', name)        a positive symbol (a variable or a physical constant)
  ('e', mono)        exp(mono); its exponent carries the rational coefficient
  ('l', key)         logarithm of a prime, of a symbol, or of exp(n*mono)-1
  ('o', text)        opaque value (anything not followed)
  ('r', key)         root of a polynomial (opaque)
Two quotients are equal when their cross products are the same polynomial; symbols, exponentials of independent
exponents and the logarithms of the basis are algebraically independent, so that a difference is definite unless opaque
logarithms or roots are involved (then the comparison answers None).
"""
import math
import re
from fractions import Fraction


class Unknown(Exception):
    pass


ONE = ()


def mono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr))


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return mono(d)


def mpow(a, e):
    return tuple((k, x * e) for k, x in a) if e != 0 else ONE


class Poly:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def scale(self, c):
        return Poly({m: c * x for m, x in self.t.items()})

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 20000:
            raise Unknown('formula too large')
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def zero(self):
        return not self.t

    def single(self):
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def key(self):
        return tuple(sorted(((m, c) for m, c in self.t.items()), key=repr))

    def atoms(self):
        return {a for m in self.t for a, e in m}


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        if d is None:
            d = Poly({ONE: Fraction(1)})
        if d.zero():
            raise Unknown('division by zero')
        s = d.single()
        if s is not None and (s[0] != ONE or s[1] != 1):
            inv = mpow(s[0], -1)
            n = Poly({mmul(m, inv): c / s[1] for m, c in n.t.items()})
            d = Poly({ONE: Fraction(1)})
        elif n.zero():
            d = Poly({ONE: Fraction(1)})
        elif n.t == d.t:
            n = d = Poly({ONE: Fraction(1)})
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d.t == o.d.t:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(self.n.scale(-1), self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.n.t == o.d.t and len(self.n.t) > 1:
            return Rat(o.n, self.d)
        if self.d.t == o.n.t and len(self.d.t) > 1:
            return Rat(self.n, o.d)
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if o.n.zero():
            raise Unknown('division by zero')
        return self * Rat(o.d, o.n)

    def zero(self):
        return self.n.zero()

    def number(self):
        """the rational number it is, or None"""
        if self.n.zero():
            return Fraction(0)
        s = self.n.single()
        if s is not None and s[0] == ONE and self.d.single() is not None:
            return s[1]
        return None

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def key(self):
        return (self.n.key(), self.d.key())


def num(x):
    return Rat(Poly({ONE: Fraction(x)}))


def var(name):
    return Rat(Poly({((('v', name), Fraction(1)),): Fraction(1)}))


def opaque(text):
    return Rat(Poly({((('o', text), Fraction(1)),): Fraction(1)}))


PI = var('pi')


def ipow(r, n):
    if n < 0:
        return num(1) / ipow(r, -n)
    if n > 12:
        raise Unknown('power too large')
    out = num(1)
    for _ in range(n):
        out = out * r
    return out


def power(r, e):
    x = e.number()
    if x is not None and x.denominator == 1:
        s = r.n.single()
        if s is not None and r.d.single() is not None:
            return Rat(Poly({mpow(s[0], x): s[1] ** int(x)}))
        return ipow(r, int(x))
    if x is not None:
        s = r.n.single()
        if s is not None and r.d.single() is not None and s[1] > 0:
            c = s[1]
            extra = {}
            for p, k in factorint(c).items():
                extra[('p', p)] = Fraction(k) * x
            ints = Fraction(1)
            rest = {}
            for (t, p), k in extra.items():
                if k.denominator == 1:
                    ints *= Fraction(p) ** int(k)
                else:
                    w = k.numerator // k.denominator
                    ints *= Fraction(p) ** w
                    rest[('v', 'prime%d' % p)] = k - w
            return Rat(Poly({mmul(mpow(s[0], x), mono(rest)): ints}))
        return Rat(Poly({((('r', r.key()), x),): Fraction(1)}))
    # x ** y = exp(y*log x)
    return exp(e * log(r))


def factorint(c):
    out = {}
    for v, sign in ((c.numerator, 1), (c.denominator, -1)):
        v = abs(v)
        p = 2
        while p * p <= v and p < 2000:
            while v % p == 0:
                out[p] = out.get(p, 0) + sign
                v //= p
            p += 1
        if v > 1:
            out[v] = out.get(v, 0) + sign
    return out


def exp(r):
    if r.d.single() is None:
        # a quotient: look for a common factor is not attempted
        raise Unknown('exponential of a quotient')
    out = num(1)
    for m, c in r.n.t.items():
        logs = [(a, e) for a, e in m if a[0] == 'l']
        if logs:
            rest = tuple(x for x in m if x[0][0] != 'l')
            if len(logs) == 1 and logs[0][1] == 1 and rest == ONE:
                out = out * power(unlog(logs[0][0]), num(c))
                continue
            raise Unknown('exponential of a logarithm')
        if m == ONE:
            out = out * Rat(Poly({((('e', ONE), c),): Fraction(1)}))
        else:
            out = out * Rat(Poly({((('e', m), c),): Fraction(1)}))
    return out


def unlog(a):
    k = a[1]
    if k[0] == 'prime':
        return num(k[1])
    if k[0] == 'sym':
        return Rat(Poly({((k[1], Fraction(1)),): Fraction(1)}))
    if k[0] == 'em1':
        return Rat(Poly({((('e', k[1]), k[2]),): Fraction(1), ONE: Fraction(-1)}))
    return Rat(Poly(dict(k[1])))


def latom(*k):
    return Rat(Poly({((('l', k), Fraction(1)),): Fraction(1)}))


def log(r):
    return plog(r.n) - plog(r.d)


def plog(p):
    if p.zero():
        raise Unknown('logarithm of zero')
    out = num(0)
    # content: lowest exponent of every atom
    low = {}
    monos = list(p.t)
    for a in {a for m in monos for a, e in m}:
        low[a] = min(dict(m).get(a, Fraction(0)) for m in monos)
    low = mono(low)
    q = {mmul(m, mpow(low, -1)): c for m, c in p.t.items()}
    for a, e in low:
        if a[0] == 'e':
            out = out + Rat(Poly({a[1]: e}))
        elif a[0] in ('v', 'o'):
            out = out + num(e) * latom('sym', a)
        elif a[0] == 'r':
            out = out + num(e) * latom('poly', a[1])
        else:
            out = out + num(e) * latom('sym', a)
    lead = max(q, key=repr)
    c = q[lead]
    if len(q) == 1:
        if c < 0:
            raise Unknown('logarithm of a negative number')
        return out + lognum(c)
    # exponential polynomials in one exponential
    es = {a for m in q for a, e in m}
    if len(es) == 1 and next(iter(es))[0] == 'e':
        a = next(iter(es))
        exps = sorted(dict(m).get(a, Fraction(0)) for m in q)
        g = exps[1]
        for e in exps[1:]:
            g = fgcd(g, e)
        deg = int(exps[-1] / g)
        if deg <= 40:
            co = [Fraction(0)] * (deg + 1)
            for m, x in q.items():
                co[int(dict(m).get(a, Fraction(0)) / g)] = x
            lead = co[-1]
            co = [x / lead for x in co]
            while len(co) > 1:
                if sum(co) == 0:
                    co = divide(co, Fraction(1))
                    out = out + latom('em1', a[1], g)
                elif sum(x * (-1) ** i for i, x in enumerate(co)) == 0:
                    co = divide(co, Fraction(-1))
                    out = out + latom('em1', a[1], 2 * g) - latom('em1', a[1], g)
                else:
                    break
            if len(co) == 1:
                if lead > 0:
                    return out + lognum(lead)
                # exp(x)-1 with a negative factor: sign cannot be told for a general argument
                raise Unknown('logarithm of a negative quantity')
            q = {((a, g * i),) if i else ONE: x for i, x in enumerate(co) if x != 0}
            return out + lognum(abs(lead)) + latom('poly', Poly(q).key())
    c = abs(c)
    return out + lognum(c) + latom('poly', Poly({m: x / c for m, x in q.items()}).key())


def fgcd(a, b):
    while b:
        a, b = b, a - b * (a // b)
    return abs(a)


def divide(co, root):
    out = [Fraction(0)] * (len(co) - 1)
    r = Fraction(0)
    for i in range(len(co) - 1, 0, -1):
        r = co[i] + r * root
        out[i - 1] = r
    return out


def lognum(c):
    out = num(0)
    for p, k in factorint(c).items():
        out = out + num(k) * latom('prime', p)
    return out


def sinh(r):
    e = exp(r)
    return (e - num(1) / e) / num(2)


def cosh(r):
    e = exp(r)
    return (e + num(1) / e) / num(2)


def tanh(r):
    e = exp(r + r)
    return (e - num(1)) / (e + num(1))


def diff(r, name):
    """derivative with respect to a symbol"""
    dn, dd = pdiff(r.n, name), pdiff(r.d, name)
    n, d = Rat(r.n), Rat(r.d)
    return (dn * d - n * dd) / (d * d)


def pdiff(p, name):
    out = num(0)
    for m, c in p.t.items():
        for a, e in m:
            rest = Rat(Poly({mmul(m, ((a, Fraction(-1)),)): c * e}))
            out = out + rest * adiff(a, name)
    return out


def adiff(a, name):
    if a == ('v', name):
        return num(1)
    if a[0] == 'v':
        return num(0)
    if a[0] == 'o':
        if name in str(a[1]):
            raise Unknown('derivative of an opaque value')
        return num(0)
    if a[0] == 'e':
        return Rat(Poly({((a, Fraction(1)),): Fraction(1)})) * pdiff(Poly({a[1]: Fraction(1)}), name)
    if a[0] == 'l':
        x = unlog(a)
        return diff(x, name) / x
    raise Unknown('derivative of a root')


def equal(a, b):
    """True, False, or None when it is not decided"""
    d = a - b
    if d.zero():
        return True
    for x in (d.n, a.d, b.d):
        for at in x.atoms():
            if at[0] == 'r' or (at[0] == 'l' and at[1][0] == 'poly'):
                return None
    # exp(c*m) with different m may be related only if the m are proportional to a symbol relation: they are monomials
    return False


def symbols(r):
    """names of the symbols, those inside logarithms and roots included; opaque values by their text"""
    out = set()

    def poly(p):
        for m in p.t:
            monomial(m)

    def monomial(m):
        for a, e in m:
            atom(a)

    def atom(a):
        if a[0] in ('v', 'o'):
            out.add(a[1])
        elif a[0] == 'e':
            monomial(a[1])
        elif a[0] == 'r':
            for k in a[1]:
                poly(Poly(dict(k)))
        elif a[0] == 'l':
            k = a[1]
            if k[0] == 'sym':
                atom(k[1])
            elif k[0] == 'em1':
                monomial(k[1])
            elif k[0] == 'poly':
                poly(Poly(dict(k[1])))
    poly(r.n)
    poly(r.d)
    return out


def value(r, env):
    """numerical value of a formula"""
    def poly(p):
        t = 0.0
        for m, c in p.t.items():
            t += float(c) * monomial(m)
        return t

    def monomial(m):
        v = 1.0
        for a, e in m:
            v *= atom(a) ** float(e)
        return v

    def atom(a):
        if a[0] in ('v', 'o'):
            return math.pi if a[1] == 'pi' else float(a[1][5:]) if re.fullmatch(r'prime\d+', a[1]) else env[a[1]]
        if a[0] == 'e':
            return math.exp(monomial(a[1]))
        if a[0] == 'r':
            n, d = a[1]
            return poly(Poly(dict(n))) / poly(Poly(dict(d)))
        k = a[1]
        if k[0] == 'prime':
            return math.log(k[1])
        if k[0] == 'sym':
            return math.log(atom(k[1]))
        if k[0] == 'em1':
            return math.log(math.expm1(float(k[2]) * monomial(k[1])))
        return math.log(poly(Poly(dict(k[1]))))
    return poly(r.n) / poly(r.d)


def same(a, b):
    """True: the same formula; False: they differ (by their values at some point); None: not decided"""
    if (a - b).zero():
        return True
    names = sorted(symbols(a) | symbols(b))
    for k in range(4):
        env = {n: 1.0 + ((i * 37 + k * 17 + 5) % 29) / 7.0 for i, n in enumerate(names)}
        try:
            x, y = value(a, env), value(b, env)
        except (ArithmeticError, ValueError):
            continue
        if abs(x - y) > 1e-7 * max(abs(x), abs(y)):
            return False
    return None


def show(r, limit=160):
    def sm(m, c):
        t = []
        for a, e in m:
            if a[0] == 'e':
                s = 'exp(%s%s)' % ('' if e == 1 else str(sf(e)) + '*', sm(a[1], Fraction(1)))
            elif a[0] == 'l':
                k = a[1]
                s = 'log(%s)' % (k[1] if k[0] in ('prime',) else k[1][1] if k[0] == 'sym' else
                                 'exp(%s*%s)-1' % (sf(k[2]), sm(k[1], Fraction(1))) if k[0] == 'em1' else '..')
                s += '' if e == 1 else '^%s' % sf(e)
            elif a[0] == 'r':
                s = 'root'
            else:
                s = str(a[1]) + ('' if e == 1 else '^%s' % sf(e))
            t.append(s)
        if c != 1 or not t:
            t.insert(0, sf(c))
        return '*'.join(t)

    def sf(x):
        x = Fraction(x)
        return str(x) if x.denominator < 10000 and abs(x.numerator) < 100000 else '%.6g' % float(x)

    def sp(p):
        return ' + '.join(sm(m, c) for m, c in sorted(p.t.items(), key=repr)) or '0'
    s = sp(r.n)
    if r.d.single() is None:
        s = '(%s)/(%s)' % (s, sp(r.d))
    return s if len(s) <= limit else s[:limit] + '...'
