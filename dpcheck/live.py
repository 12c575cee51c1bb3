"""Parameters that are dead on entry: never read before they are overwritten."""
import ast

from .names import dotted


class Live:
    """backward liveness of one name over a function body"""

    def __init__(self, name):
        self.name = name

    def uses(self, e):
        if e is None:
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id == self.name and isinstance(n.ctx, (ast.Load, ast.Del)):
                return True
            if isinstance(n, ast.Call) and dotted(n.func) in ('locals', 'vars', 'eval', 'exec') and not n.args:
                return True
        return False

    def defines(self, t):
        return any(isinstance(n, ast.Name) and n.id == self.name and isinstance(n.ctx, ast.Store) for n in ast.walk(t))

    def block(self, body, out, br, co, ex):
        """live before the block, given live after it (out), at break, at continue, in handlers"""
        live = out
        for s in reversed(body):
            live = self.stmt(s, live, br, co, ex)
        return live

    def stmt(self, s, out, br, co, ex):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out or any(self.uses(x) for x in ast.walk(s) if isinstance(x, ast.Name))
        if isinstance(s, ast.Return):
            return self.uses(s.value)
        if isinstance(s, ast.Raise):
            return self.uses(s) or ex
        if isinstance(s, ast.Break):
            return br
        if isinstance(s, ast.Continue):
            return co
        if isinstance(s, ast.If):
            return self.uses(s.test) or self.block(s.body, out, br, co, ex) or self.block(s.orelse, out, br, co, ex)
        if isinstance(s, ast.While):
            els = self.block(s.orelse, out, br, co, ex)
            head = self.uses(s.test) or els
            for _ in range(2):
                head = self.uses(s.test) or els or self.block(s.body, head, out, head, ex)
            return head
        if isinstance(s, (ast.For, ast.AsyncFor)):
            els = self.block(s.orelse, out, br, co, ex)
            head = els
            for _ in range(2):
                b = self.block(s.body, head, out, head, ex)
                if self.defines(s.target):
                    b = False
                head = els or b
            return self.uses(s.iter) or head or (self.uses(s.target))
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, br, co, ex)
            h = fin
            for x in s.handlers:
                h = h or self.block(x.body, fin, br, co, ex)
            return self.block(s.body, self.block(s.orelse, fin, br, co, h), br, co, h) or h
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, out, br, co, ex)
            for it in reversed(s.items):
                if it.optional_vars is not None and self.defines(it.optional_vars):
                    live = False
                live = live or self.uses(it.context_expr)
            return live
        if isinstance(s, ast.Assign):
            if any(self.defines(t) for t in s.targets):
                out = False
            return out or self.uses(s.value) or any(self.uses(t) for t in s.targets)
        if isinstance(s, ast.AugAssign):
            return out or self.uses(s.value) or self.uses(s.target) or self.defines(s.target)
        if isinstance(s, ast.Global):
            return out
        if isinstance(s, ast.Match) if hasattr(ast, 'Match') else False:
            return True
        return out or self.uses(s)


def dead_on_entry(fnode, name):
    """is the parameter never read before being overwritten?  Reads inside nested functions count."""
    return not Live(name).block(fnode.body, False, False, False, False)


def stub(fnode):
    body = [s for s in fnode.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def parameters(rep, prog):
    """rule 'parameter': parameters that some caller supplies and that are dead on entry"""
    supplied = {}
    funcs = {}
    for f in prog.functions():
        funcs.setdefault(f.name, []).append(f)
    classes = {}
    for m in prog.all_modules():
        for c in m.classes.values():
            classes.setdefault(c.name, []).append(c)
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func)
            name = d.split('.')[-1] if d else (n.func.attr if isinstance(n.func, ast.Attribute) else None)
            cands = list(funcs.get(name, ()))
            if name in classes:
                cands += [c.methods['__init__'] for c in classes[name] if '__init__' in c.methods]
            for f in cands:
                ps = f.params()
                if ps and ps[0] in ('self', 'cls') and f.cls is not None:
                    ps = ps[1:]
                for i, a in enumerate(n.args):
                    if i < len(ps) and not isinstance(a, ast.Starred):
                        supplied.setdefault((id(f.node), ps[i]), (m, n))
                for k in n.keywords:
                    if k.arg:
                        supplied.setdefault((id(f.node), k.arg), (m, n))
    # functions used through a table or as a value share a signature: a parameter may be needed by another one only
    values = set()
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                if not (isinstance(n._parent, ast.Call) and n._parent.func is n) and not isinstance(n._parent, ast.Attribute):
                    values.add(n.id if isinstance(n, ast.Name) else n.attr)
    overridden = {}
    for m in prog.all_modules():
        for c in m.classes.values():
            for x in c.methods:
                overridden.setdefault(x, set()).add(c.name)
    for f in prog.functions():
        if isinstance(f.node, ast.Lambda) or stub(f.node):
            continue
        if f.cls is not None and (f.name in f.cls.getters and False):
            continue
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if ps and ps[0] in ('self', 'cls') and f.cls is not None:
            ps = ps[1:]
        for p in ps:
            if p.startswith('_'):
                continue
            if not dead_on_entry(f.node, p):
                rep.counts['parameter'] += 1
                continue
            key = (id(f.node), p)
            if key not in supplied:
                continue
            rep.cands = getattr(rep, 'cands', [])
            if f.name in values or (f.cls is not None and len(overridden.get(f.name, ())) > 1):
                rep.skip('parameter', f.where(), '%s of %s is not used, but the function shares its signature with others' % (p, f.name))
                continue
            rep.bad('parameter', '%s:%s' % (f.qual, p), f.where(), 'what callers give as %s is not used by %s' % (p, f.name))
