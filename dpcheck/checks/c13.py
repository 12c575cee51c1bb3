"""C13: nothing in a parallel region of the C kernels depends on the number of threads or on their schedule."""
import re

from ..csrc import c_files, strip, callee, text, Values, Poly, num, atom
from ..lin import entails, atoms, subst
from ..cmach import omp_body, for_parts, base, is_ptr, INTS, PURE, pointee

FLOATS = ('double', 'float', 'long double', '_Complex double', '_Dcomplex', 'double _Complex', '_Complex float')
SAFE = {x for x in PURE if not x.startswith('Py')} | {'malloc', 'free', 'calloc', 'realloc', 'PyArray_DATA', 'PyArray_DIM', 'PyArray_NDIM', 'PyArray_DIMS', 'PyArray_SIZE', 'snprintf', 'sprintf'}
STATEFUL = {'rand', 'srand', 'strtok', 'random', 'drand48', 'setlocale', 'localtime', 'gmtime', 'getenv'}


def clauses(cf, n):
    """the clauses of a directive, from its text (clang's JSON dump leaves their names out)"""
    lines = open(cf.path, errors='replace').read().split('\n')
    i = (n.line or 1) - 1
    t = lines[i]
    while t.rstrip().endswith('\\') and i + 1 < len(lines):
        i += 1
        t = t.rstrip()[:-1] + ' ' + lines[i]
    t = t.split('//')[0]
    out = {}
    for m in re.finditer(r'(\w+)\s*\(([^()]*)\)', t):
        name, arg = m.group(1), m.group(2)
        if name == 'reduction':
            op, _, vs = arg.partition(':')
            out.setdefault('reduction', []).extend((v.strip(), op.strip()) for v in vs.split(','))
        else:
            out.setdefault(name, []).extend(v.strip() for v in arg.split(','))
    for w in re.findall(r'\b(nowait|ordered|simd)\b', t):
        out.setdefault(w, [])
    return out, t


def unwrap(n):
    n = strip(n)
    return n


def root_of(n):
    """(declaration reference at the base of an lvalue, [indices]); None for the base when it is something else"""
    idx = []
    n = strip(n)
    while True:
        if n.kind == 'ArraySubscriptExpr':
            idx.append(n.kids[1])
            n = strip(n.kids[0])
        elif n.kind == 'UnaryOperator' and n.op == '*':
            k = strip(n.kids[0])
            if k.kind == 'BinaryOperator' and k.op == '+':
                idx.append(k.kids[1])
                n = strip(k.kids[0])
            else:
                idx.append(None)
                n = k
        elif n.kind == 'MemberExpr' and n.kids:
            idx.append('.')
            n = strip(n.kids[0])
        else:
            break
    return (n if n.kind == 'DeclRefExpr' and n.ref else None), list(reversed(idx))


def writes(body):
    """(node, target lvalue, kind)"""
    for k in body.walk():
        if k.kind == 'BinaryOperator' and k.op == '=':
            yield k, k.kids[0], 'set'
        elif k.kind == 'CompoundAssignOperator':
            yield k, k.kids[0], 'update'
        elif k.kind == 'UnaryOperator' and k.op in ('++', '--'):
            yield k, k.kids[0], 'update'


def guard(n, top):
    """critical or atomic directive around a node"""
    while n is not None and n is not top:
        if n.kind in ('OMPCriticalDirective', 'OMPAtomicDirective', 'OMPOrderedDirective'):
            return n.kind
        n = n.parent
    return None


class Effects:
    """what a function of the file changes besides its own variables"""

    def __init__(self, cf):
        self.cf, self.memo = cf, {}

    def of(self, name, depth=0):
        """(indices of pointer parameters it writes through, globals and statics it writes, unsafe functions it calls)"""
        if name in self.memo:
            return self.memo[name]
        f = self.cf.funcs[name]
        self.memo[name] = (set(), set(), set())
        ps = {p.id: i for i, p in enumerate(self.cf.params(f))}
        src = self.aliases(f, ps)
        local = {d.id for d in f.walk() if d.kind == 'VarDecl' and d.raw.get('storageClass') != 'static'}
        through, glob, bad = set(), set(), set()
        for k, t, how in writes(f):
            r, idx = root_of(t)
            if r is None:
                continue
            if idx:
                for i in src.get(r.ref[0], ()):
                    through.add(i)
                if r.ref[0] not in ps and r.ref[0] not in local:
                    glob.add(r.ref[1])
            elif r.ref[0] not in ps and r.ref[0] not in local:
                glob.add(r.ref[1])
        for k in f.walk():
            if k.kind != 'CallExpr':
                continue
            c = callee(k)
            if c in self.cf.funcs:
                t2, g2, b2 = self.of(c, depth + 1)
                glob |= g2
                bad |= b2
                for i in t2:
                    if i + 1 < len(k.kids):
                        r, idx = root_of(k.kids[i + 1])
                        if r is not None:
                            through |= set(src.get(r.ref[0], ()))
                            if r.ref[0] not in ps and r.ref[0] not in local:
                                glob.add(r.ref[1])
            elif c in STATEFUL or (c or '').startswith('Py') and c not in SAFE or c is None:
                bad.add(c or text(k.kids[0])[:30])
            elif c in ('memcpy', 'memset', 'memmove'):
                r, idx = root_of(k.kids[1])
                if r is not None:
                    through |= set(src.get(r.ref[0], ()))
        self.memo[name] = (through, glob, bad)
        return self.memo[name]

    def aliases(self, f, ps):
        """variable -> parameters its address may come from"""
        src = {i: {k} for i, k in ps.items()}
        for _ in range(3):
            for d in f.walk():
                e, tid = None, None
                if d.kind == 'VarDecl' and d.raw.get('init') and d.kids and is_ptr(d.type):
                    e, tid = d.kids[-1], d.id
                elif d.kind == 'BinaryOperator' and d.op == '=' and is_ptr(d.type):
                    t = strip(d.kids[0])
                    if t.kind == 'DeclRefExpr' and t.ref:
                        e, tid = d.kids[1], t.ref[0]
                if e is None:
                    continue
                for x in e.walk():
                    if x.kind == 'DeclRefExpr' and x.ref and x.ref[0] in src and is_ptr(x.type):
                        src.setdefault(tid, set()).update(src[x.ref[0]])
        return src


class Region:
    def __init__(self, rep, cf, f, n, eff):
        self.rep, self.cf, self.f, self.n, self.eff = rep, cf, f, n, eff
        self.cl, self.text = clauses(cf, n)
        self.key = '%s:%s' % (cf.rel, f.name)

    def bad(self, rule, what, node, txt):
        self.rep.bad(rule, '%s:%s' % (self.key, what), '%s:%s' % (self.cf.rel, node.line), txt)

    def run(self):
        body = omp_body(self.n)
        if body is None:
            self.rep.skip('region', self.key, 'no body')
            return
        loop = body
        if loop.kind != 'ForStmt':
            self.rep.skip('region', '%s line %s' % (self.key, self.n.line), 'only parallel loops are followed')
            return
        init, cond, inc, stmt = for_parts(loop)
        ivar = None
        if init is not None:
            for k in init.walk():
                if k.kind == 'VarDecl':
                    ivar = (k.id, k.name)
                elif k.kind == 'BinaryOperator' and k.op == '=' and strip(k.kids[0]).kind == 'DeclRefExpr':
                    ivar = strip(k.kids[0]).ref[:2]
        if ivar is None:
            self.rep.skip('region', self.key, 'loop variable')
            return
        self.ivar, self.loop, self.stmt = ivar, loop, stmt
        own = {d.id for d in stmt.walk() if d.kind == 'VarDecl' and d.raw.get('storageClass') != 'static'} | {ivar[0]}
        names = set()
        outer = self.n.parent
        while outer is not None and outer.kind != 'OMPParallelDirective':
            outer = outer.parent
        if 'Parallel' not in self.n.kind:
            if outer is None:
                self.rep.skip('region', self.key, 'loop shared by the threads of a caller')
                return
            own |= {d.id for d in outer.walk() if d.kind == 'VarDecl' and d.raw.get('storageClass') != 'static'}
            oc, _ = clauses(self.cf, outer)
            for c in ('private', 'firstprivate'):
                names |= set(oc.get(c, ()))
        for c in ('private', 'firstprivate', 'lastprivate', 'linear'):
            names |= set(self.cl.get(c, ()))
        reds = dict(self.cl.get('reduction', ()))
        self.private = names
        self.own = own
        vals = Values(self.cf, self.f)
        shared_arrays = {}       # base -> [(node, indices)]
        # reductions
        for k in stmt.walk():
            if k.kind == 'DeclRefExpr' and k.ref and k.ref[1] in reds and base(k.type) in FLOATS:
                self.bad('order', k.ref[1], k, 'the floating sum %s is combined in an order that depends on the threads' % k.ref[1])
        # private variables have no value at first
        for v in sorted(set(self.cl.get('private', ())) | set(self.cl.get('lastprivate', ())) - set(self.cl.get('firstprivate', ()))):
            r = first_use(stmt, v)
            if r is not None and r[0] == 'read':
                self.bad('private', v, r[1], 'the private variable %s is read before the turn gives it a value' % v)
            elif r is not None:
                self.rep.ok('private', '%s: %s is written first in every turn' % (self.key, v))
        # writes
        for k, t, how in writes(stmt):
            r, idx = root_of(t)
            if r is None:
                self.rep.skip('write', '%s: %s' % (self.key, text(t)[:60]), 'target not followed')
                continue
            name, rid = r.ref[1], r.ref[0]
            if not idx or idx == ['.']:
                if rid in own or name in names or name in reds:
                    self.rep.ok('write', '%s: %s belongs to the thread' % (self.key, name))
                    continue
                g = guard(k, self.n)
                if g:
                    if base(r.type) in FLOATS or how == 'set':
                        self.bad('order', name, k, 'the value of %s depends on the order in which the threads reach it' % name)
                    else:
                        self.rep.ok('write', '%s: %s is updated atomically' % (self.key, name))
                    continue
                self.bad('write', name, k, 'all the threads write the shared variable %s' % name)
                continue
            b = self.base(r)
            if b is None:
                if rid in own and not is_ptr(r.type) or self.local_memory(r):
                    self.rep.ok('write', '%s: %s is memory of the turn' % (self.key, name))
                    continue
                self.rep.skip('write', '%s: %s' % (self.key, text(t)[:60]), 'memory not identified')
                continue
            shared_arrays.setdefault(b, []).append((k, idx, self.offset(r), how, t))
        for b, ws in sorted(shared_arrays.items()):
            forms = []
            for k, idx, off, how, t in ws:
                v = self.injective(vals, idx, off, k)
                if v is True:
                    self.rep.ok('write', '%s: %s is another element in every turn' % (self.key, text(t)))
                    forms.append(self.form(vals, idx, off))
                elif v is False:
                    g = guard(k, self.n)
                    if g == 'OMPAtomicDirective' and base(strip(t).type) in INTS:
                        self.rep.ok('write', '%s: %s is updated atomically' % (self.key, text(t)))
                        continue
                    self.bad('write', text(t), k, '%s is written in several turns of the parallel loop' % text(t))
                else:
                    self.rep.skip('write', '%s: %s' % (self.key, text(t)), 'index not followed')
            for i, x in enumerate(forms):
                for y in forms[i + 1:]:
                    if x is not None and y is not None and x.text() != y.text():
                        d = (x - y).const()
                        if d is not None and d != 0:
                            self.bad('write', b + ' offsets', ws[0][0], 'elements of %s are written in different turns (offsets that differ by %s)' % (b, abs(d)))
            # reads of the same memory
            for k in stmt.walk():
                if k.kind not in ('ArraySubscriptExpr', 'UnaryOperator') or (k.kind == 'UnaryOperator' and k.op != '*'):
                    continue
                if k.parent is not None and any(strip(w[4]) is k for w in ws):
                    continue
                if k.parent is not None and k.parent.kind == 'ArraySubscriptExpr' and k.parent.kids[0] is k:
                    continue
                r, idx = root_of(k)
                if r is None or self.base(r) != b:
                    continue
                x = self.form(vals, idx, self.offset(r))
                if x is None or any(f is None for f in forms) or not forms:
                    self.rep.skip('read', '%s: %s' % (self.key, text(k)), 'index not followed')
                    continue
                if any(f.text() == x.text() for f in forms):
                    self.rep.ok('read', '%s: %s was written by the same turn' % (self.key, text(k)))
                    continue
                d = (x - forms[0]).const()
                if d is not None and d != 0 or not self.depends(x):
                    self.bad('read', text(k), k, '%s is written by another turn, which may run before or after' % text(k))
                else:
                    self.rep.skip('read', '%s: %s' % (self.key, text(k)), 'index not compared')
        # calls
        for k in stmt.walk():
            if k.kind != 'CallExpr':
                continue
            c = callee(k)
            if c in self.cf.funcs:
                through, glob, bad = self.eff.of(c)
                for g in sorted(glob):
                    self.bad('call', '%s:%s' % (c, g), k, '%s, called by all the threads, writes the variable %s' % (c, g))
                for g in sorted(bad):
                    self.bad('call', '%s:%s' % (c, g), k, '%s, called by all the threads, calls %s' % (c, g))
                for i in sorted(through):
                    if i + 1 >= len(k.kids):
                        continue
                    a = k.kids[i + 1]
                    self.argument(vals, c, i, a, k)
                if not (through or glob or bad):
                    self.rep.ok('call', '%s: %s changes nothing but its own variables' % (self.key, c))
            elif c in STATEFUL or (c or '').startswith(('Py', '_Py')) and c not in SAFE:
                self.bad('call', c, k, '%s is called by several threads at once' % c)
            elif c is None and 'PyArray_API' in text(k.kids[0]):
                self.bad('call', text(k.kids[0])[:40], k, 'the Python interface is called by several threads at once')
            elif c in SAFE:
                self.rep.ok('call', '%s: %s' % (self.key, c))
            else:
                self.rep.skip('call', '%s: %s' % (self.key, c or text(k)[:40]), 'unknown function')

    def argument(self, vals, c, i, a, k):
        a = strip(a)
        if a.kind == 'UnaryOperator' and a.op == '&':
            r, idx = root_of(a.kids[0])
            if r is not None and not idx:
                if r.ref[0] in self.own or r.ref[1] in self.private:
                    self.rep.ok('call', '%s: %s writes the variable %s of the turn' % (self.key, c, r.ref[1]))
                else:
                    self.bad('call', '%s:%s' % (c, r.ref[1]), k, '%s writes the shared variable %s' % (c, r.ref[1]))
                return
            if r is not None and idx:
                v = self.injective(vals, idx, self.offset(r), k)
                if v is False:
                    self.bad('call', '%s:%s' % (c, text(a)), k, '%s writes %s in several turns' % (c, text(a)))
                    return
            self.rep.skip('call', '%s: argument %s of %s' % (self.key, text(a), c), 'not followed')
            return
        if a.kind == 'DeclRefExpr' and a.ref:
            if self.local_memory(a):
                self.rep.ok('call', '%s: %s writes memory of the turn (%s)' % (self.key, c, a.ref[1]))
                return
            if a.ref[0] in self.own or a.ref[1] in self.private:
                e = self.initial(a)
                if e is not None and self.depends_on_turn(e):
                    self.rep.skip('call', '%s: argument %s of %s' % (self.key, text(a), c), 'depends on the turn')
                    return
                if e is None:
                    self.rep.skip('call', '%s: argument %s of %s' % (self.key, text(a), c), 'not followed')
                    return
            self.bad('call', '%s:%s' % (c, a.ref[1]), k, '%s writes the memory %s, which all the threads share' % (c, a.ref[1]))
            return
        if not self.depends_on_turn(a):
            self.bad('call', '%s:%s' % (c, text(a)), k, '%s writes the memory %s, which all the threads share' % (c, text(a)))
        else:
            self.rep.skip('call', '%s: argument %s of %s' % (self.key, text(a), c), 'depends on the turn')

    def depends_on_turn(self, e):
        return any(x.kind == 'DeclRefExpr' and x.ref and (x.ref[0] in self.own or x.ref[1] in self.private) for x in e.walk())

    def initial(self, r):
        """the only expression a pointer variable of the turn is set to"""
        es = []
        for d in self.f.walk():
            if d.kind == 'VarDecl' and d.id == r.ref[0] and d.raw.get('init') and d.kids:
                es.append(d.kids[-1])
            elif d.kind == 'BinaryOperator' and d.op == '=':
                t = strip(d.kids[0])
                if t.kind == 'DeclRefExpr' and t.ref and t.ref[0] == r.ref[0]:
                    es.append(d.kids[1])
        return es[0] if len(es) == 1 else None

    def local_memory(self, r):
        """array declared in the turn, or pointer to memory allocated in it"""
        if r.ref[0] not in self.own and r.ref[1] not in self.private:
            return False
        if base(r.type).endswith(']'):
            return r.ref[0] in self.own or r.ref[1] in self.private
        e = self.initial(r)
        if e is None:
            return False
        e = strip(e)
        return e.kind == 'CallExpr' and callee(e) in ('malloc', 'calloc') and any(x is self.stmt for x in parents(e))

    def base(self, r, depth=0):
        """name of the memory a pointer leads to: the variable outside the loop that holds it"""
        if depth > 5:
            return None
        if r.ref[0] in self.own or r.ref[1] in self.private:
            e = self.initial(r)
            if e is None:
                return None
            q, idx = root_of_pointer(e)
            if q is None:
                return None
            return self.base(q, depth + 1)
        e = self.initial(r)
        if e is not None:
            x = strip(e)
            if x.kind == 'CallExpr' and callee(x) == 'PyArray_DATA' and len(x.kids) > 1:
                y = strip(x.kids[1])
                if y.kind == 'DeclRefExpr':
                    return y.ref[1]
            if x.kind == 'DeclRefExpr' and x.ref and x.ref[0] != r.ref[0]:
                return self.base(x, depth + 1)
        return r.ref[1]

    def offset(self, r):
        """what a pointer of the turn adds to the memory it leads to"""
        if r.ref[0] in self.own or r.ref[1] in self.private:
            e = self.initial(r)
            if e is not None:
                q, idx = root_of_pointer(e)
                return idx
        return None

    def form(self, vals, idx, off):
        p = num(0)
        if len([i for i in idx if i != '.']) != 1:
            return None
        i = [i for i in idx if i != '.'][0]
        if i is None and off is None:
            return None
        parts = [i, off] if off is not None else [i]
        for x in parts:
            if x is None:
                continue
            q = vals.poly(x)
            if q is None:
                return None
            p = p + q
        return p

    def depends(self, p):
        return any(self.ivar[1] in k for k in p)

    def injective(self, vals, idx, off, node):
        """is it another element in every turn?  True, False or None"""
        two = [i for i in idx if i != '.']
        if len(two) == 2 and two[0] is not None:
            # row of the turn
            p = vals.poly(two[0])
            if p is not None and self.linear(p) and off is None:
                return True
        p = self.form(vals, idx, off)
        if p is None:
            return None
        if not self.depends(p):
            ok = all(self.fixed(a) for a in atoms(p))
            if ok:
                return False
            # the index varies by something else: inner loops run over the same elements in every turn
            return False if all(self.fixed(a) or self.inner(a, node) for a in atoms(p)) else None
        if self.linear(p) and all(a == self.ivar[1] or self.fixed(a) for a in atoms(p)):
            return True
        # i*M + k with 0 <= k < M
        k = {m: c for m, c in p.items() if self.ivar[1] in m}
        rest = Poly({m: c for m, c in p.items() if self.ivar[1] not in m})
        if len(k) == 1:
            (m, c), = k.items()
            if m.count(self.ivar[1]) == 1 and c > 0:
                width = Poly({tuple(a for a in m if a != self.ivar[1]): c})
                inner = [a for a in atoms(rest) if self.inner(a, node)]
                if all(self.fixed(a) for a in atoms(width)) and len(inner) == 1:
                    b = self.inner(inner[0], node)
                    lo, hi = b
                    if lo is not None and hi is not None:
                        a_lo, a_hi = subst(rest, inner[0], lo), subst(rest, inner[0], hi)
                        if rest.get((inner[0],), 0) == 1 and not (a_lo - (a_hi - width) + num(0)) or (a_hi - a_lo - width).const() is not None and (a_hi - a_lo - width).const() <= 0:
                            return True
                        c2 = (a_hi - a_lo - width).const()
                        if c2 is not None and c2 > 0:
                            return False
        return None

    def linear(self, p):
        ks = [m for m in p if self.ivar[1] in m]
        return len(ks) == 1 and ks[0].count(self.ivar[1]) == 1 and len(ks[0]) == 1

    def fixed(self, a):
        """not changed by the parallel loop"""
        if a == self.ivar[1]:
            return False
        for k, t, how in writes(self.stmt):
            r, idx = root_of(t)
            if r is not None and r.ref[1] == a:
                return False
        return not any(d.kind == 'VarDecl' and d.name == a for d in self.stmt.walk()) and a.isidentifier()

    def inner(self, a, node):
        """(first value, limit) of the variable of an inner loop that the node is in"""
        n = node
        while n is not None and n is not self.loop:
            if n.kind == 'ForStmt':
                init, cond, inc, body = for_parts(n)
                v, lo = None, None
                vals = Values(self.cf, self.f)
                for k in (init.walk() if init is not None else ()):
                    if k.kind == 'VarDecl' and k.name == a and k.kids:
                        v, lo = a, vals.poly(k.kids[-1])
                    elif k.kind == 'BinaryOperator' and k.op == '=' and text(k.kids[0]) == a:
                        v, lo = a, vals.poly(k.kids[1])
                if v is not None:
                    c = strip(cond) if cond is not None else None
                    hi = None
                    if c is not None and c.kind == 'BinaryOperator' and text(c.kids[0]) == a and c.op in ('<', '<='):
                        hi = vals.poly(c.kids[1])
                        if hi is not None and c.op == '<=':
                            hi = hi + num(1)
                    return (lo, hi)
            n = n.parent
        return None


def parents(n):
    while n is not None:
        yield n
        n = n.parent


def root_of_pointer(e):
    """pointer expression as (variable, added index)"""
    e = strip(e)
    if e.kind == 'DeclRefExpr' and e.ref:
        return e, None
    if e.kind == 'BinaryOperator' and e.op == '+':
        a, b = strip(e.kids[0]), strip(e.kids[1])
        if a.kind == 'DeclRefExpr' and is_ptr(a.type):
            return a, e.kids[1]
        if b.kind == 'DeclRefExpr' and is_ptr(b.type):
            return b, e.kids[0]
    if e.kind == 'UnaryOperator' and e.op == '&':
        r, idx = root_of(e.kids[0])
        if r is not None and len(idx) == 1:
            return r, idx[0]
    return None, None


def first_use(stmt, name):
    own = {d.id for d in stmt.walk() if d.kind == 'VarDecl'}
    return first_use_of(stmt, name, own)


def first_use_of(stmt, name, own):
    """('read' | 'write', node) of the first use of a variable in a turn, in order of evaluation; None when it is not used"""
    def ev(n):
        if n.kind == 'BinaryOperator' and n.op == '=' and strip(n.kids[0]).kind == 'DeclRefExpr':
            r = ev(n.kids[1])
            if r:
                return r
            if strip(n.kids[0]).ref[1] == name and strip(n.kids[0]).ref[0] not in own:
                return ('write', n)
            return None
        if n.kind == 'IfStmt':
            r = ev(n.kids[0])
            if r:
                return r
            rs = [ev(k) for k in n.kids[1:]]
            if any(x and x[0] == 'read' for x in rs):
                return next(x for x in rs if x and x[0] == 'read')
            if len(rs) == 2 and all(rs):
                return rs[0]
            return None
        if n.kind in ('ForStmt', 'WhileStmt'):
            for k in n.kids:
                r = ev(k)
                if r and r[0] == 'read':
                    return r
                if r and k is not n.kids[-1]:
                    return r
            return None
        if n.kind == 'UnaryOperator' and n.op == '&' and strip(n.kids[0]).kind == 'DeclRefExpr' and strip(n.kids[0]).ref[1] == name and strip(n.kids[0]).ref[0] not in own:
            return ('write', n)
        if n.kind == 'DeclRefExpr' and n.ref and n.ref[1] == name and n.ref[0] not in own:
            return ('read', n)
        for k in n.kids:
            r = ev(k)
            if r:
                return r
        return None
    return ev(stmt)


def run(rep):
    rep.rule('write', 'what a parallel loop writes belongs to the thread or is another element in every turn')
    rep.rule('read', 'what a turn reads is not written by another turn')
    rep.rule('private', 'a private variable is written in the turn before it is read')
    rep.rule('call', 'functions called in a parallel loop write nothing that the threads share and do not use the Python interface')
    rep.rule('order', 'no floating result depends on the order of the threads')
    rep.rule('region', 'parallel loops of the kernels')
    cfs = c_files()
    rep.need(cfs, 'no C sources')
    for cf in cfs:
        rep.need(cf.ok, '%s: %s' % (cf.rel, cf.error))
        eff = Effects(cf)
        for f in cf.funcs.values():
            for n in f.walk():
                if n.kind and n.kind.startswith('OMP') and n.kind.endswith('Directive') and 'For' in n.kind and not n.kind.startswith('OMPSimd'):
                    rep.ok('region', '%s:%s line %s' % (cf.rel, f.name, n.line))
                    Region(rep, cf, f, n, eff).run()
                elif n.kind == 'OMPParallelDirective' and any(x.kind == 'OMPForDirective' for x in n.walk()):
                    pass
                elif n.kind in ('OMPParallelDirective', 'OMPSectionsDirective', 'OMPTaskDirective', 'OMPParallelSectionsDirective'):
                    rep.skip('region', '%s:%s line %s' % (cf.rel, f.name, n.line), 'only parallel loops are followed')
