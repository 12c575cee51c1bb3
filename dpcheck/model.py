"""The resolved program: modules, classes, functions, imports of /repo (parsed, never imported)."""
import ast
import os
import warnings

from .norm import normalise
from .report import REPO, AnalysisBroken

SCRIPTS = ['dynaphopy', 'rfc_calc', 'qha_extract', 'fitdata', 'concath5']


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        s = self.name
        if self.parent is not None:
            s = self.parent.name + '.' + s
        if self.cls is not None:
            s = self.cls.name + '.' + s
        return self.mod.name + ':' + s

    def where(self, node=None):
        return '%s:%d' % (self.mod.rel, getattr(node if node is not None else self.node, 'lineno', 0))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(self.node, 'decorator_list', []))


class Class:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = None
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'get'
                    if isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'set'
                        sname = d.value.id if isinstance(d.value, ast.Name) else n.name
                f = Func(mod, n, self)
                if kind == 'get':
                    self.getters[n.name] = f
                elif kind == 'set':
                    self.setters[sname] = f
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
                        v = n.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            pass
        # X = property(getter, setter)
        for name, v in list(self.attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                args = list(v.args) + [None, None]
                kw = {k.arg: k.value for k in v.keywords}
                g = kw.get('fget', args[0])
                s = kw.get('fset', args[1])
                if isinstance(g, ast.Name) and g.id in self.methods:
                    self.getters[name] = self.methods[g.id]
                if isinstance(s, ast.Name) and s.id in self.methods:
                    self.setters[name] = self.methods[s.id]

    def bases(self, prog):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Name):
                r = self.mod.resolve(b.id)
                if r and r[0] == 'class':
                    out.append(r[1])
        return out

    def mro(self, prog):
        out = [self]
        for b in self.bases(prog):
            for c in b.mro(prog):
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, prog, table, name):
        for c in self.mro(prog):
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None


class Module:
    def __init__(self, prog, name, path, rel, is_pkg):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        with open(path, encoding='utf-8', errors='replace') as f:
            self.src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src, path)
        self.funcs = {}
        self.classes = {}
        self.assigns = {}     # name -> list of value expressions (module level)
        self.imports = {}     # name -> ('module', dotted) | ('from', dotted, attr)

    def finish(self):
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self, n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.add_import(n, self.imports)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.assigns.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With)):
                self._collect(n.body)
                self._collect(getattr(n, 'orelse', []))
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    self._collect(h.body)
                self._collect(n.orelse)
                self._collect(n.finalbody)

    def add_import(self, n, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table.setdefault(a.asname, ('module', a.name))
                else:
                    table.setdefault(a.name.split('.')[0], ('module', a.name.split('.')[0]))
        else:
            base = n.module or ''
            if n.level:
                parts = self.name.split('.')
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names:
                table.setdefault(a.asname or a.name, ('from', base, a.name))

    def resolve(self, name, seen=None):
        """module level name -> ('func', Func) ('class', Class) ('module', dotted) ('value', Module, [exprs]) ('ext', dotted)"""
        if seen is None:
            seen = set()
        if (self.name, name) in seen:
            return None
        seen.add((self.name, name))
        if name in self.funcs:
            return ('func', self.funcs[name])
        if name in self.classes:
            return ('class', self.classes[name])
        if name in self.imports:
            return self.prog.resolve_import(self.imports[name], seen)
        if name in self.assigns:
            return ('value', self, self.assigns[name])
        return None


class Program:
    def __init__(self, repo=None, norm=True):
        self.repo = repo or REPO
        self.modules = {}
        pkg = os.path.join(self.repo, 'dynaphopy')
        if not os.path.isdir(pkg):
            raise AnalysisBroken('package dynaphopy not found')
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, '.')
                    is_pkg = name.endswith('.__init__')
                    if is_pkg:
                        name = name[:-9]
                    self.modules[name] = Module(self, name, p, rel, is_pkg)
        self.scripts = {}
        for s in SCRIPTS:
            p = os.path.join(self.repo, 'scripts', s)
            if os.path.exists(p):
                self.scripts[s] = Module(self, 'scripts.' + s, p, 'scripts/' + s, False)
        if norm:
            normalise({m.rel: m.tree for m in self.all_modules()}, light=norm == 'light')
        for m in self.all_modules():
            m.finish()

    def all_modules(self):
        return list(self.modules.values()) + list(self.scripts.values())

    def resolve_import(self, imp, seen=None):
        if imp[0] == 'module':
            return ('module', imp[1])
        _, base, attr = imp
        if base in self.modules:
            r = self.modules[base].resolve(attr, seen)
            if r is not None:
                return r
            if base + '.' + attr in self.modules:
                return ('module', base + '.' + attr)
            return ('ext', base + '.' + attr)
        if base + '.' + attr in self.modules:
            return ('module', base + '.' + attr)
        return ('ext', (base + '.' if base else '') + attr)

    def module_attr(self, dotted, attr):
        if dotted in self.modules:
            r = self.modules[dotted].resolve(attr)
            if r is not None:
                return r
            if dotted + '.' + attr in self.modules:
                return ('module', dotted + '.' + attr)
            return ('ext', dotted + '.' + attr)
        # a prefix of a package of ours
        if dotted + '.' + attr in self.modules:
            return ('module', dotted + '.' + attr)
        return ('ext', dotted + '.' + attr)

    def cls(self, modname, clsname):
        m = self.modules.get(modname)
        if m is None:
            return None
        r = m.resolve(clsname)
        return r[1] if r and r[0] == 'class' else None

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def mutates(self, qual):
        """may the function change (in place) what its parameters hold?  Syntactic; passing a parameter on to another
        function of ours is followed, passing it to a library is not counted."""
        if not hasattr(self, '_mut'):
            self._mut = {}
            funcs = {}
            for f in self.functions():
                funcs.setdefault(f.qual, f)
            muts = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'sort', 'reverse', 'fill',
                    'setdefault', 'resize', 'put', 'itemset', 'add', 'discard', 'popitem'}
            calls = {}
            for q, f in funcs.items():
                if isinstance(f.node, ast.Lambda):
                    continue
                params = set(f.params())
                hit = False
                calls[q] = set()
                for n in ast.walk(f.node):
                    tgt = None
                    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        tgt = n.value
                    elif isinstance(n, ast.AugAssign):
                        tgt = n.target
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            (n.func.attr in muts or n.func.attr.startswith('set_')):
                        tgt = n.func.value
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                        r = f.mod.resolve(n.func.id)
                        if r and r[0] == 'func' and any(isinstance(a, ast.Name) and a.id in params for a in n.args):
                            calls[q].add(r[1].qual)
                    while isinstance(tgt, (ast.Subscript, ast.Attribute)):
                        tgt = tgt.value
                    if isinstance(tgt, ast.Name) and tgt.id in params:
                        hit = True
                self._mut[q] = hit
            ch = True
            while ch:
                ch = False
                for q, cs in calls.items():
                    if not self._mut[q] and any(self._mut.get(c) for c in cs):
                        self._mut[q] = ch = True
        return self._mut.get(qual, True)

    def functions(self, modules=None):
        """every function, method and nested function."""
        for m in (modules or self.all_modules()):
            def rec(body, cls, parent):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Func(m, n, cls, parent)
                        yield f
                        yield from rec(n.body, cls, f)
                    elif isinstance(n, ast.ClassDef):
                        yield from rec(n.body, Class(m, n), None)
                    else:
                        for fld in ('body', 'orelse', 'finalbody'):
                            b = getattr(n, fld, None)
                            if isinstance(b, list):
                                yield from rec(b, cls, parent)
                        for h in getattr(n, 'handlers', []):
                            yield from rec(h.body, cls, parent)
            yield from rec(m.tree.body, None, None)
