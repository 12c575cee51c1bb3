"""The C sources of the extension modules as clang parses them (syntax tree only, nothing is compiled or run)."""
import glob
import json
import os
import shutil
import subprocess

from .report import REPO


class N:
    """a node of the clang syntax tree"""
    __slots__ = ('kind', 'name', 'type', 'line', 'kids', 'parent', 'value', 'op', 'ref', 'id', 'raw', 'func')

    def __init__(self, d, parent, func):
        self.kind = d.get('kind')
        self.name = d.get('name')
        self.type = (d.get('type') or {}).get('qualType', '')
        self.line = None
        self.kids = []
        self.parent = parent
        self.value = d.get('value')
        self.op = d.get('opcode')
        r = d.get('referencedDecl') or {}
        self.ref = (r.get('id'), r.get('name'), r.get('kind')) if r else None
        self.id = d.get('id')
        self.raw = {k: v for k, v in d.items() if k not in ('inner', 'loc', 'range')}
        self.func = func

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.kind, self.name or self.op or self.value or (self.ref and self.ref[1]) or '', self.func.name if self.func else '', self.line)


WRAP = ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr')


def strip(n):
    while n is not None and n.kind in WRAP and n.kids:
        n = n.kids[-1]
    return n


def callee(n):
    """name of the function a call calls"""
    if n.kind != 'CallExpr' or not n.kids:
        return None
    f = strip(n.kids[0])
    return f.ref[1] if f.kind == 'DeclRefExpr' and f.ref else None


class CFile:
    def __init__(self, path, rel):
        self.path = path
        self.rel = rel
        self.funcs = {}
        self.globals = {}
        self.ok = False
        self.error = ''
        self._load()

    def _load(self):
        clang = shutil.which('clang') or shutil.which('clang-18')
        if clang is None:
            self.error = 'clang is not installed'
            return
        pys = sorted(glob.glob('/usr/include/python3*/Python.h')) + sorted(glob.glob('/usr/local/include/python3*/Python.h'))
        nps = sorted(glob.glob('/opt/venv/lib/python3*/site-packages/numpy/_core/include')) + \
            sorted(glob.glob('/usr/lib/python3/dist-packages/numpy/*core/include')) + \
            sorted(glob.glob('/opt/venv/lib/python3*/site-packages/numpy/core/include'))
        if not pys or not nps:
            self.error = 'Python or numpy headers are not installed'
            return
        cmd = [clang, '-std=c99', '-fopenmp', '-fsyntax-only', '-w', '-I' + os.path.dirname(pys[-1]), '-I' + nps[0],
               '-I' + os.path.dirname(self.path), '-Xclang', '-ast-dump=json', self.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            self.error = 'clang does not accept the file: ' + p.stderr.decode(errors='replace').strip().split('\n')[0]
            return
        d = json.loads(p.stdout)
        cur_file, cur_line = [''], [None]

        def loc(l):
            """clang omits file and line when they do not change"""
            if not l:
                return None
            for sub in ('spellingLoc', 'expansionLoc'):
                if sub in l:
                    r = loc(l[sub])
            if 'expansionLoc' in l:
                return r
            if 'offset' not in l:
                return None
            if 'file' in l:
                cur_file[0] = l['file']
            if 'line' in l:
                cur_line[0] = l['line']
            return cur_file[0], cur_line[0]

        def build(x, parent, func):
            n = N(x, parent, func)
            a = loc(x.get('loc'))
            rg = x.get('range') or {}
            b = loc(rg.get('begin'))
            loc(rg.get('end'))
            where = a or b or (None, None)
            n.line = where[1] if where[1] is not None else (parent.line if parent else None)
            fn = func
            if n.kind == 'FunctionDecl':
                n.func = n
                fn = n
            if n.kind == 'ForStmt':
                n.raw['_parts'] = [bool(k) for k in x.get('inner', ())]
            for k in x.get('inner', ()):
                if k:
                    n.kids.append(build(k, n, fn))
            return n

        def skim(x):
            loc(x.get('loc'))
            rg = x.get('range') or {}
            loc(rg.get('begin'))
            loc(rg.get('end'))
            for k in x.get('inner', ()):
                if k:
                    skim(k)

        for x in d.get('inner', ()):
            # the position is tracked through every declaration, but only those of the file itself are kept
            a = peek(x, cur_file[0])
            if a and os.path.abspath(a) == os.path.abspath(self.path):
                n = build(x, None, None)
                if n.kind == 'FunctionDecl' and any(k.kind == 'CompoundStmt' for k in n.kids):
                    self.funcs[n.name] = n
                elif n.kind == 'VarDecl':
                    self.globals[n.name] = n
            else:
                skim(x)
        self.ok = True

    def body(self, f):
        return next(k for k in f.kids if k.kind == 'CompoundStmt')

    def params(self, f):
        return [k for k in f.kids if k.kind == 'ParmVarDecl']


def peek(x, cur):
    l = x.get('loc') or {}
    for c in (l, l.get('spellingLoc') or {}, l.get('expansionLoc') or {}):
        if 'file' in c:
            cur = c['file']
    return cur


_cache = {}


def c_files():
    """the C sources of the package, parsed"""
    root = REPO
    out = []
    for p in sorted(glob.glob(os.path.join(root, 'c', '**', '*.c'), recursive=True)):
        if p not in _cache:
            _cache[p] = CFile(p, os.path.relpath(p, root))
        out.append(_cache[p])
    return out


# -- polynomials over program quantities ----------------------------------------

class Poly(dict):
    """monomial (sorted tuple of atoms) -> complex coefficient"""

    def __add__(self, o):
        r = Poly(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v
        return r.clean()

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.items()}).clean()

    def __mul__(self, o):
        r = Poly()
        for a, x in self.items():
            for b, y in o.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return r.clean()

    def clean(self):
        for k in [k for k, v in self.items() if v == 0]:
            del self[k]
        return self

    def const(self):
        if not self:
            return 0
        if set(self) == {()}:
            return self[()]
        return None

    def __hash__(self):
        return hash(frozenset(self.items()))

    def text(self):
        return ' + '.join('%s%s' % ('' if v == 1 and k else (('%g' % v.real) if not getattr(v, 'imag', 0) else str(v)), ('*' if v != 1 else '') + '*'.join(k) if k else '') for k, v in sorted(self.items())) or '0'


def num(c):
    return Poly({(): c}).clean()


def atom(a):
    return Poly({(a,): 1})


def text(n):
    """canonical text of an expression"""
    n = strip(n)
    if n.kind == 'DeclRefExpr':
        return n.ref[1]
    if n.kind in ('IntegerLiteral', 'FloatingLiteral', 'StringLiteral', 'CharacterLiteral'):
        return str(n.value)
    if n.kind == 'CallExpr':
        return '%s(%s)' % (text(n.kids[0]), ','.join(text(k) for k in n.kids[1:]))
    if n.kind == 'ArraySubscriptExpr':
        return '%s[%s]' % (text(n.kids[0]), text(n.kids[1]))
    if n.kind in ('BinaryOperator', 'CompoundAssignOperator'):
        return '(%s%s%s)' % (text(n.kids[0]), n.op, text(n.kids[1]))
    if n.kind == 'UnaryOperator':
        return '(%s%s)' % (n.op, text(n.kids[0]))
    if n.kind == 'MemberExpr':
        return '%s.%s' % (text(n.kids[0]), n.name)
    return '%s(%s)' % (n.kind, ','.join(text(k) for k in n.kids))


class Values:
    """symbolic value of the expressions of one function: names of parameters and of variables assigned more than once are
    atoms; a variable that is only initialised stands for its initialiser; single-return helpers are expanded"""

    def __init__(self, cf, func, resolve=True):
        self.cf, self.func = cf, func
        self.written, self.init = {}, {}
        for n in func.walk():
            if n.kind == 'VarDecl':
                e = [k for k in n.kids if k.kind not in ('FullComment',)]
                if e and e[-1].kind != 'InitListExpr' and n.raw.get('init'):
                    self.init[n.id] = e[-1]
                    self.written.setdefault(n.id, []).append(n)
            elif n.kind in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+=', '-=', '*=', '/=', '%='):
                t = strip(n.kids[0])
                if t.kind == 'DeclRefExpr' and t.ref:
                    self.written.setdefault(t.ref[0], []).append(n)
            elif n.kind == 'UnaryOperator' and n.op in ('++', '--', '&'):
                t = strip(n.kids[0])
                if t.kind == 'DeclRefExpr' and t.ref:
                    self.written.setdefault(t.ref[0], []).append(n)
        self.resolve = resolve
        self.bind = {}

    def single(self, rid):
        w = self.written.get(rid, ())
        if len(w) == 1:
            if w[0].kind == 'VarDecl':
                return self.init[rid]
            if w[0].kind == 'BinaryOperator' and w[0].op == '=':
                return w[0].kids[1]
        return None

    def poly(self, n, depth=0):
        n = strip(n)
        if depth > 25 or n is None:
            return None
        if n.kind in ('IntegerLiteral', 'FloatingLiteral'):
            v = float(n.value)
            return num(int(v) if v == int(v) and n.kind == 'IntegerLiteral' else v)
        if n.kind == 'ImaginaryLiteral':
            p = self.poly(n.kids[0], depth + 1)
            return p.scale(1j) if p is not None else None
        if n.kind == 'DeclRefExpr' and n.ref:
            if n.ref[0] in self.bind:
                return self.bind[n.ref[0]]
            if self.resolve and n.ref[2] == 'VarDecl':
                e = self.single(n.ref[0])
                if e is not None and not in_loop_differently(e, n):
                    p = self.poly(e, depth + 1)
                    if p is not None:
                        return p
            return atom(n.ref[1])
        if n.kind == 'UnaryOperator' and n.op in ('-', '+', '__extension__'):
            p = self.poly(n.kids[0], depth + 1)
            return p.scale(-1) if p is not None and n.op == '-' else p
        if n.kind == 'BinaryOperator' and n.op in ('+', '-', '*', '/'):
            a, b = self.poly(n.kids[0], depth + 1), self.poly(n.kids[1], depth + 1)
            if a is None or b is None:
                return None
            if n.op == '+':
                return a + b
            if n.op == '-':
                return a - b
            if n.op == '*':
                return a * b
            c = b.const()
            if c and not (n.type in ('int', 'long') and True):
                return a.scale(1.0 / c)
            return a * atom('1/(%s)' % b.text())
        if n.kind == 'CallExpr':
            name = callee(n)
            args = n.kids[1:]
            if name == 'conj' and len(args) == 1:
                p = self.poly(args[0], depth + 1)
                if p is None:
                    return None
                return Poly({tuple(sorted(conj_atom(x, self) for x in k)): complex(v).conjugate() for k, v in p.items()})
            if name == 'cexp' and len(args) == 1:
                return atom('cexp@%s' % n.id)
            g = self.cf.funcs.get(name)
            if g is not None and g is not self.func:
                st = [k for k in self.cf.body(g).kids]
                if len(st) == 1 and st[0].kind == 'ReturnStmt' and st[0].kids:
                    v = Values(self.cf, g)
                    ps = self.cf.params(g)
                    if len(ps) == len(args):
                        for p, a in zip(ps, args):
                            q = self.poly(a, depth + 1)
                            if q is None:
                                return None
                            v.bind[p.id] = q
                        return v.poly(st[0].kids[0], depth + 1)
            if any(p is None for p in (self.poly(a, depth + 1) for a in args)):
                return None
            return atom(text(n))
        if n.kind == 'ArraySubscriptExpr':
            i = self.poly(n.kids[1], depth + 1)
            return atom('%s[%s]' % (text(n.kids[0]), i.text() if i is not None else text(n.kids[1])))
        return atom(text(n))


def conj_atom(a, v):
    if a.startswith('conj:'):
        return a[5:]
    if '[' in a or a.startswith('cexp@'):
        return 'conj:' + a
    return a


def loops(n):
    out = []
    while n is not None:
        if n.kind in ('ForStmt', 'WhileStmt', 'DoStmt'):
            out.append(n)
        n = n.parent
    return out


def in_loop_differently(e, use):
    """is the single definition made in a loop that the use is not in?"""
    lu = loops(use)
    return any(x not in lu for x in loops(e))
