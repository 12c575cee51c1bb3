"""C25: an error exit has a non-zero status and is not swallowed."""
import ast

from ..model import Program
from ..names import dotted

EXITS = {'exit': 0, 'quit': 0, 'sys.exit': 0, 'os._exit': 0, 'posix._exit': 0}
TALK = {'print', 'format', 'str', 'repr', 'len', 'join', 'write', 'flush', 'close', 'print_help', 'print_usage', 'warn',
        'int', 'float', 'list', 'tuple', 'range', 'round', 'basename', 'upper', 'lower', 'strip', 'split', 'sorted', 'set',
        'endwin', 'error', 'warning', 'info', 'critical', 'debug', 'getLogger', 'keys', 'values', 'items'}
UNKNOWN = object()


class Exit:
    def __init__(self, mod, func, node, status):
        self.mod, self.func, self.node, self.status = mod, func, node, status


def parent_func(n):
    p = getattr(n, '_parent', None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
        p = getattr(p, '_parent', None)
    return p


def sys_names(mod):
    """local spellings of the exit functions"""
    out = dict(EXITS)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name in ('sys', 'os') and a.asname:
                    out[a.asname + ('.exit' if a.name == 'sys' else '._exit')] = 0
        if isinstance(n, ast.ImportFrom) and n.module in ('sys', 'os'):
            for a in n.names:
                if a.name in ('exit', '_exit'):
                    out[a.asname or a.name] = 0
    return out


def status_of(e, mod, fnode, seen=()):
    """zero / nonzero (as 0 or 1), ('param', name) or UNKNOWN"""
    if e is None:
        return 0
    if isinstance(e, ast.Constant):
        v = e.value
        if v is None or v is False or v == 0 and not isinstance(v, str):
            return 0
        return 1
    if isinstance(e, (ast.JoinedStr,)):
        return 1
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return status_of(e.operand, mod, fnode, seen)
    if isinstance(e, ast.Attribute):
        if dotted(e) == 'os.EX_OK':
            return 0
        if dotted(e) and dotted(e).startswith('os.EX_'):
            return 1
        return UNKNOWN
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' \
            and isinstance(e.func.value, ast.Constant):
        return 1
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'bool') and len(e.args) == 1:
        return status_of(e.args[0], mod, fnode, seen)
    if isinstance(e, ast.BinOp) and (is_text(e.left) or is_text(e.right)):
        return 1
    if isinstance(e, ast.IfExp):
        a, b = status_of(e.body, mod, fnode, seen), status_of(e.orelse, mod, fnode, seen)
        return a if a == b else UNKNOWN
    if isinstance(e, ast.Name) and e.id not in seen:
        if isinstance(fnode, ast.FunctionDef):
            ps = [x.arg for x in fnode.args.posonlyargs + fnode.args.args + fnode.args.kwonlyargs]
            stores = [x for x in ast.walk(fnode) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            if e.id in ps and not stores:
                return ('param', e.id)
            if stores:
                vs = {str(status_of(s.value, mod, fnode, seen + (e.id,))) for s in stores}
                if len(vs) == 1 and e.id not in ps:
                    return status_of(stores[0].value, mod, fnode, seen + (e.id,))
                return UNKNOWN
        r = mod.resolve(e.id)
        if r and r[0] == 'value':
            vs = [status_of(x, r[1], None, seen + (e.id,)) for x in r[2]]
            if len({str(v) for v in vs}) == 1:
                return vs[0]
    return UNKNOWN


def is_text(e):
    return isinstance(e, (ast.JoinedStr,)) or isinstance(e, ast.Constant) and isinstance(e.value, str)


def status_arg(call, names):
    if isinstance(call.func, ast.Attribute) and call.func.attr == 'exit' and dotted(call.func) not in names:
        # parser.exit(status=0, message=None)
        for k in call.keywords:
            if k.arg == 'status':
                return k.value
        return call.args[0] if call.args else None
    for k in call.keywords:
        if k.arg in ('status', 'code'):
            return k.value
    return call.args[0] if call.args else None


def run(rep):
    prog = Program()
    rep.rule('status', 'a process end that follows no completed action has a non-zero status')
    rep.rule('swallow', 'no handler catches the exit of an error raised below it and lets the program go on')
    exits, helpers = [], {}
    for m in prog.all_modules():
        names = sys_names(m)
        parsers = {t.id for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                   and (dotted(n.value.func) or '').endswith('ArgumentParser') for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(m.tree):
            call = None
            if isinstance(n, ast.Raise) and n.exc is not None:
                c = n.exc
                if isinstance(c, ast.Name) and c.id == 'SystemExit':
                    exits.append(Exit(m, parent_func(n), n, 0))
                    continue
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'SystemExit':
                    call = c
            elif isinstance(n, ast.Call):
                d = dotted(n.func)
                if d in names and not (d in ('exit', 'quit') and (m.resolve(d) or local_def(n, d))):
                    call = n
                elif d and d.endswith('.exit') and d.split('.')[0] in parsers:
                    call = n
            if call is None:
                continue
            f = parent_func(n)
            s = status_of(status_arg(call, names), m, f)
            if isinstance(s, tuple):
                helpers.setdefault((m, f), (s[1], n))
            exits.append(Exit(m, f, n, s))
    # exits whose status is a parameter: every call of the helper is an exit
    todo = list(helpers.items())
    done = set()
    while todo:
        (hm, hf), (pname, node) = todo.pop()
        if (id(hf), pname) in done:
            continue
        done.add((id(hf), pname))
        ps = [x.arg for x in hf.args.posonlyargs + hf.args.args]
        dflt = dict(zip(ps[len(ps) - len(hf.args.defaults):], hf.args.defaults))
        for k, d in zip(hf.args.kwonlyargs, hf.args.kw_defaults):
            if d is not None:
                dflt[k.arg] = d
        for m in prog.all_modules():
            for c in ast.walk(m.tree):
                if not isinstance(c, ast.Call):
                    continue
                last = c.func.attr if isinstance(c.func, ast.Attribute) else (c.func.id if isinstance(c.func, ast.Name) else None)
                if last is None:
                    continue
                if isinstance(c.func, ast.Name):
                    r = m.resolve(last)
                    if not (r and r[0] == 'func' and r[1].node is hf):
                        continue
                elif last != hf.name:
                    continue
                off = 1 if isinstance(c.func, ast.Attribute) and ps[:1] in (['self'], ['cls']) else 0
                e = dflt.get(pname)
                for k in c.keywords:
                    if k.arg == pname:
                        e = k.value
                i = ps.index(pname) - off if pname in ps else -1
                if 0 <= i < len(c.args):
                    e = c.args[i]
                f = parent_func(c)
                s = status_of(e, m, f)
                if isinstance(s, tuple):
                    todo.append(((m, f), (s[1], c)))
                exits.append(Exit(m, f, c, s))
    n_err = 0
    for x in exits:
        where = '%s:%d' % (x.mod.rel, x.node.lineno)
        fn = getattr(x.func, 'name', '<module>') if x.func is not None else '<module>'
        if isinstance(x.status, tuple):
            continue
        if x.status is UNKNOWN:
            rep.skip('status', where, 'the status is computed')
            continue
        if x.status == 1:
            n_err += 1
            rep.ok('status', '%s in %s ends with a failure status' % (where, fn))
            continue
        act = completed_action(x, prog)
        if act:
            rep.ok('status', '%s in %s ends with success after %s' % (where, fn, act))
        else:
            rep.bad('status', '%s:%s:%s' % (x.mod.rel, fn, guard_key(x.node)), where,
                    'the process ends with status 0 although no requested action was completed here')
    swallow(rep, prog, exits)
    rep.info['process_ends'] = len(exits)
    rep.info['failure_ends'] = n_err


def local_def(n, name):
    p = parent_func(n)
    while p is not None:
        if isinstance(p, ast.FunctionDef):
            for x in ast.walk(p):
                if isinstance(x, ast.FunctionDef) and x.name == name or \
                        isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) or \
                        isinstance(x, ast.arg) and x.arg == name:
                    return True
        p = parent_func(p)
    return False


def guard_key(n):
    """the condition under which the exit stands (a key without line numbers)"""
    p, c = getattr(n, '_parent', None), n
    while p is not None:
        if isinstance(p, ast.If):
            return ('not ' if any(c is o for o in p.orelse) else '') + ast.unparse(p.test)
        if isinstance(p, ast.ExceptHandler):
            return 'except ' + (ast.unparse(p.type) if p.type is not None else '')
        if isinstance(p, (ast.FunctionDef, ast.Module)):
            return ''
        c, p = p, getattr(p, '_parent', None)
    return ''


def completed_action(x, prog):
    """what was done in the block that ends in the exit (None: only talk)"""
    n = x.node
    while not isinstance(n, ast.stmt):
        n = n._parent
    p = n._parent
    if isinstance(p, ast.ExceptHandler):
        return None
    # a loop or with statement around is part of the block
    blocks = []
    while True:
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and any(n is s for s in b):
                blocks.append(b[:[i for i, s in enumerate(b) if s is n][0]])
        if isinstance(p, (ast.With, ast.For, ast.While, ast.Try)):
            n, p = p, p._parent
            if isinstance(p, ast.ExceptHandler):
                return None
            continue
        break
    if isinstance(p, ast.FunctionDef) and p.name not in ('main', 'run') or isinstance(p, ast.Module):
        # not conditional: everything before it
        pass
    for b in blocks:
        for s in b:
            for c in ast.walk(s):
                if isinstance(c, ast.Call):
                    last = c.func.attr if isinstance(c.func, ast.Attribute) else (c.func.id if isinstance(c.func, ast.Name) else '')
                    if last == 'print' or last == 'write':
                        if c.args and not any(is_text(y) or isinstance(y, ast.Constant) for a in c.args for y in ast.walk(a)):
                            return 'output (%s)' % ast.unparse(c)[:40]
                        if last == 'write' and any(isinstance(y, ast.Call) and callee(y) not in TALK for a in c.args for y in ast.walk(a)):
                            return 'output (%s)' % ast.unparse(c)[:40]
                    elif last not in TALK:
                        if isinstance(c.func, ast.Name) and x.mod.resolve(c.func.id) and x.mod.resolve(c.func.id)[0] == 'func' \
                                and only_talks(x.mod.resolve(c.func.id)[1].node):
                            continue
                        return ast.unparse(c)[:60]
    return None


def callee(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else (c.func.id if isinstance(c.func, ast.Name) else '')


def only_talks(f):
    return all(callee(c) in TALK for c in ast.walk(f) if isinstance(c, ast.Call))


def swallow(rep, prog, exits):
    """bare handlers (and handlers of SystemExit) above a failing exit"""
    ends = {}
    for x in exits:
        if x.func is not None and (x.status == 1 or isinstance(x.status, tuple)):
            ends.setdefault(id(x.func), x)
    methods = {}
    for f in prog.functions():
        methods.setdefault(f.name, []).append(f)
    reach = {}
    os_exit = {'os._exit'}

    def callees(body, mod):
        for s in body:
            for c in ast.walk(s):
                if isinstance(c, ast.Call):
                    if isinstance(c.func, ast.Name):
                        r = mod.resolve(c.func.id)
                        if r and r[0] == 'func':
                            yield r[1]
                        elif r and r[0] == 'class':
                            i = r[1].lookup(prog, 'methods', '__init__')
                            if i is not None:
                                yield i
                    elif isinstance(c.func, ast.Attribute):
                        if isinstance(c.func.value, ast.Name):
                            r = mod.resolve(c.func.value.id)
                            if r and r[0] == 'module':
                                q = prog.module_attr(r[1], c.func.attr)
                                if q and q[0] == 'func':
                                    yield q[1]
                                continue
                        c2 = methods.get(c.func.attr, [])
                        if len(c2) == 1 and c2[0].cls is not None:
                            yield c2[0]

    def find(f, stack):
        k = id(f.node)
        if k in ends:
            return ends[k]
        if k in reach:
            return reach[k]
        if k in stack or not isinstance(f.node, ast.FunctionDef):
            return None
        r = None
        for g in callees(f.node.body, f.mod):
            r = find(g, stack | {k})
            if r is not None:
                break
        reach[k] = r
        return r

    nodes = {id(x.node): x for x in exits if x.status == 1}
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Try):
                continue
            for h in n.handlers:
                ts = [] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                if h.type is not None and not any(dotted(t) in ('SystemExit', 'BaseException') for t in ts):
                    continue
                if any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)):
                    rep.ok('swallow', '%s:%d raises again' % (m.rel, h.lineno))
                    continue
                if any(id(x) in nodes for s in h.body for x in ast.walk(s)):
                    rep.ok('swallow', '%s:%d ends with a failure status itself' % (m.rel, h.lineno))
                    continue
                hit = None
                for s in n.body:
                    for x in ast.walk(s):
                        if id(x) in nodes:
                            hit = nodes[id(x)]
                if hit is None:
                    for g in callees(n.body, m):
                        hit = find(g, frozenset())
                        if hit is not None:
                            break
                f = parent_func(n)
                if hit is not None:
                    rep.bad('swallow', '%s:%s:%s' % (m.rel, getattr(f, 'name', '<module>'), getattr(hit.func, 'name', '<module>')),
                            '%s:%d' % (m.rel, h.lineno), 'this handler also catches the failure exit at %s:%d' % (hit.mod.rel, hit.node.lineno))
                else:
                    rep.ok('swallow', '%s:%d no failure exit below' % (m.rel, h.lineno))
            if n.finalbody:
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Return) and any(id(y) in nodes for b in n.body for z in [b] for y in ast.walk(z)):
                            rep.bad('swallow', '%s:finally' % m.rel, '%s:%d' % (m.rel, x.lineno), 'return in finally discards the failure exit')
