"""The functions of the program that build a trajectory object, and their symbolic execution (see seq)."""
import ast

from .checks.c09 import World, own
from .names import dotted
from .seq import Exec, TooMany

FRAMES = ('trajectory', 'scaled_trajectory', 'velocity', 'energy')


def dead(n):
    """inside `if False'"""
    c, p = n, getattr(n, '_parent', None)
    while p is not None:
        if isinstance(p, ast.If) and isinstance(p.test, ast.Constant) and (c in p.body) != bool(p.test.value) and c is not p.test:
            return True
        c, p = p, getattr(p, '_parent', None)
    return False


def ctor(prog, mod, n):
    """the call builds a Dynamics"""
    if not isinstance(n, ast.Call):
        return False
    r = None
    if isinstance(n.func, ast.Name):
        r = mod.resolve(n.func.id)
    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
        b = mod.resolve(n.func.value.id)
        if b and b[0] == 'module':
            r = prog.module_attr(b[1], n.func.attr)
    return bool(r and r[0] == 'class' and r[1].name == 'Dynamics')


def arguments(prog, call):
    c = prog.find_class('Dynamics')
    init = c.methods.get('__init__') if c else None
    names = init.params()[1:] if init else []
    out = dict(zip(names, call.args))
    for k in call.keywords:
        if k.arg is None:
            return None
        out[k.arg] = k.value
    return out


class Reader:
    def __init__(self, func, calls):
        self.func, self.calls = func, calls
        self.ex = None
        self.error = None
        self.watch = set()


def watched(func, exprs):
    """names the lengths of the expressions may come from"""
    names = set()
    todo = []

    def add(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in names:
                names.add(n.id)
                todo.append(n.id)
    for e in exprs:
        add(e)
    while todo:
        x = todo.pop()
        for n in own(func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                    vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(ts) else [n.value] * len(ts)
                    for a, v in zip(ts, vs):
                        if isinstance(a, ast.Name) and a.id == x and not (isinstance(v, ast.Call) and big(v)):
                            add(v)
    return names


def big(call):
    d = (dotted(call.func) or '').split('.')[-1]
    return d in ('open', 'mmap', 'int', 'float')


def find(prog, cls=Exec):
    w = World(prog)
    out = []
    for f in w.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        calls = [n for n in own(f.node) if ctor(prog, f.mod, n) and not dead(n)]
        if calls:
            out.append(Reader(f, calls))
    for r in out:
        exprs = []
        for c in r.calls:
            a = arguments(prog, c)
            if a:
                exprs += [v for k, v in a.items() if k == 'time' or k in FRAMES]
        for n in own(r.func.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
                exprs += [e for e in n.value.elts if not any(id(x) in {id(c) for c in r.calls} for x in ast.walk(e))]
        r.watch = watched(r.func, exprs)
        r.ex = cls(prog, r.func, w, r.watch)
        r.ex.calls = {id(c) for c in r.calls}
        try:
            r.ex.run()
        except (TooMany, RecursionError):
            r.error = 'too many paths'
    return w, out
