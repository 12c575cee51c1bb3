"""Names that installed packages provide, read from their sources and stubs (nothing is imported, except that the names
of compiled standard-library modules are listed)."""
import ast
import builtins
import glob
import importlib
import os
import sys
import warnings

STDLIB = os.path.dirname(os.__file__)


def site_dirs():
    out = []
    for pat in ('/opt/venv/lib/python3*/site-packages', '/usr/lib/python3/dist-packages',
                '/usr/local/lib/python3*/dist-packages'):
        out += sorted(glob.glob(pat))
    return out


class ExtMod:
    def __init__(self, ext, name, path):
        self.ext = ext
        self.name = name
        self.path = path
        self.is_pkg = os.path.basename(path).startswith('__init__.')
        with open(path, encoding='utf-8', errors='replace') as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.defs = {}        # name -> list of nodes / ('import', base, attr) / ('module', dotted)
        self.stars = []
        self.dynamic = False
        self.names = None
        self._collect(self.tree.body)

    def _add(self, name, x):
        self.defs.setdefault(name, []).append(x)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                if n.name == '__getattr__' and not self.path.endswith('.pyi'):
                    self.dynamic = True
                self._add(n.name, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self._add(a.asname, ('module', a.name))
                    else:
                        self._add(a.name.split('.')[0], ('module', a.name.split('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self._add(a.asname or a.name, ('from', base, a.name))
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self._add(x.id, n)
            elif isinstance(n, ast.Expr):
                s = ast.dump(n)
                if 'globals' in s or 'attach' in s:
                    self.dynamic = True
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if isinstance(b, list) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    self._collect(b)
            for h in getattr(n, 'handlers', []):
                self._collect(h.body)
            if isinstance(n, (ast.For,)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self._add(x.id, n)
            if isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in ast.walk(i.optional_vars):
                            if isinstance(x, ast.Name):
                                self._add(x.id, n)


class Ext:
    def __init__(self):
        self.dirs = site_dirs()
        self.cache = {}

    def find(self, dotted):
        """-> path of the module source, 'ext' for a compiled one, None if absent."""
        rel = dotted.replace('.', '/')
        for d in self.dirs + [STDLIB]:
            p = os.path.join(d, rel)
            for c in (p + '/__init__.pyi', p + '/__init__.py', p + '.pyi', p + '.py'):
                if c.endswith('.pyi') and not dotted.startswith('numpy'):
                    continue
                if os.path.exists(c):
                    return c
            if glob.glob(p + '.*.so') or glob.glob(p + '.so'):
                return 'ext'
            if os.path.isdir(p):
                return 'ext'
        top = dotted.split('.')[0]
        if top in sys.stdlib_module_names:
            return 'std'
        return None

    def module(self, dotted):
        if dotted not in self.cache:
            p = self.find(dotted)
            if p in (None, 'ext', 'std'):
                self.cache[dotted] = p
            else:
                try:
                    self.cache[dotted] = ExtMod(self, dotted, p)
                except SyntaxError:
                    self.cache[dotted] = 'ext'
        return self.cache[dotted]

    def installed(self, dotted):
        return self.find(dotted.split('.')[0]) is not None

    def has(self, dotted, name, seen=None):
        """does module `dotted` provide `name`?  True / False / None (cannot tell)"""
        seen = seen or set()
        if (dotted, name) in seen:
            return False
        seen.add((dotted, name))
        m = self.module(dotted)
        if m is None:
            return None if not self.installed(dotted) else False
        if m == 'ext':
            return None
        if m == 'std':
            try:
                return hasattr(importlib.import_module(dotted), name)
            except Exception:
                return None
        if name in m.defs or name in ('__file__', '__name__', '__doc__', '__path__', '__version__', '__dict__'):
            return True
        unknown = m.dynamic and not dotted.startswith('numpy')
        for s in m.stars:
            r = self.has(s, name, seen)
            if r:
                return True
            if r is None:
                unknown = True
        if m.is_pkg and self.find(dotted + '.' + name) is not None:
            return True
        return None if unknown else False

    def definition(self, dotted, name, depth=0):
        """-> list of (module, FunctionDef/ClassDef) or None"""
        if depth > 8:
            return None
        m = self.module(dotted)
        if not isinstance(m, ExtMod):
            return None
        if name in m.defs:
            out = []
            for x in m.defs[name]:
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.append((m, x))
                elif isinstance(x, tuple) and x[0] == 'from':
                    r = self.definition(x[1], x[2], depth + 1)
                    if r is None:
                        return None
                    out += r
                else:
                    return None
            return out
        for s in m.stars:
            r = self.definition(s, name, depth + 1)
            if r is not None:
                return r
        return None

    def submodule(self, dotted, name):
        """the module that `dotted`.`name` is, if it is one"""
        m = self.module(dotted)
        if isinstance(m, ExtMod):
            for x in m.defs.get(name, []):
                if isinstance(x, tuple):
                    if x[0] == 'module':
                        return x[1]
                    if x[0] == 'from' and self.find(x[1] + '.' + x[2]) is not None:
                        return x[1] + '.' + x[2]
            if name in m.defs:
                return None
        if self.find(dotted + '.' + name) is not None:
            return dotted + '.' + name
        return None

    def members(self, mod, cls, depth=0):
        """names of a class and whether they are all known"""
        names = set()
        complete = True
        if depth > 6:
            return names, False
        for n in cls.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                if n.name in ('__getattr__', '__getattribute__', '__setattr__'):
                    complete = False
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            names.add(x.id)
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and x.value.id == 'self':
                    names.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                    complete = False
        for d in cls.decorator_list:
            complete = complete and True
        for b in cls.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            r = self.definition(mod.name, b.id) if isinstance(b, ast.Name) else None
            if r and len(r) == 1 and isinstance(r[0][1], ast.ClassDef):
                a, c = self.members(r[0][0], r[0][1], depth + 1)
                names |= a
                complete = complete and c
            else:
                complete = False
        return names, complete


BUILTIN_NAMES = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__', 'raw_input', 'unicode', '__path__',
                                      '__class__'}
BUILTIN_NAMES -= {'raw_input', 'unicode'}
