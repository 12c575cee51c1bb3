"""C22: input files are opened for reading only; data handed to a function, or handed out by a getter, is not changed."""
import ast

from ..alias import Effects, own
from ..model import Program
from ..names import Names, dotted

READ = {'read', 'readline', 'readlines', 'find', 'rfind', 'seek', 'tell', 'fileno', 'close', 'size', 'keys', 'items', 'values',
        'get', 'visit', 'readinto', 'name', 'closed', '__enter__', '__exit__', 'readall', 'peek', 'next', 'isatty', 'readable'}
WRITE = {'write', 'writelines', 'truncate', 'flush', 'create_dataset', 'create_group', 'require_dataset', 'require_group',
         'write_byte', 'move', 'resize'}
WRITERS = {'dump', 'dump_all', 'safe_dump', 'savetxt', 'save', 'savez', 'savefig', 'tofile', 'to_csv', 'writer', 'DictWriter',
           'write_FORCE_CONSTANTS', 'write_yaml', 'copyfileobj'}
REMOVERS = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.truncate', 'shutil.move', 'shutil.rmtree', 'os.rmdir',
            'shutil.copyfile', 'shutil.copy'}


def fold(e, f, mod):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if f is not None:
            vs = [n.value for n in ast.walk(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(vs) == 1:
                return fold(vs[0], f, mod)
            a = f.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if not vs and e.id in ps:
                d = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
                return None
        r = mod.resolve(e.id)
        if r and r[0] == 'value' and len(r[2]) == 1:
            return fold(r[2][0], None, r[1])
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = fold(e.left, f, mod), fold(e.right, f, mod)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
    return None


def kw(call, name, pos, default=None):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[pos] if pos is not None and pos < len(call.args) else default


def opening(n, f, mod):
    """('file'|'map'|'h5'|'memmap', writable?, description) of an opening call"""
    d = dotted(n.func) or ''
    last = d.split('.')[-1]
    if d in ('open', 'io.open', 'codecs.open', 'os.fdopen', 'gzip.open', 'bz2.open'):
        e = kw(n, 'mode', 1)
        m = 'r' if e is None else fold(e, f, mod)
        if not isinstance(m, str):
            return ('file', None, 'computed mode')
        return ('file', m, m)
    if last == 'open' and isinstance(n.func, ast.Attribute) and d not in ('webbrowser.open', 'os.open'):
        # pathlib: Path(x).open(mode)
        e = kw(n, 'mode', 0)
        m = 'r' if e is None else fold(e, f, mod)
        return ('file', m if isinstance(m, str) else None, m)
    if d in ('mmap.mmap', 'mmap') and len(n.args) >= 1:
        acc = kw(n, 'access', None)
        prot = kw(n, 'prot', None)
        if acc is not None:
            a = (dotted(acc) or '').split('.')[-1]
            if a in ('ACCESS_READ', 'ACCESS_COPY'):
                return ('map', 'r', a)
            if a in ('ACCESS_WRITE', 'ACCESS_DEFAULT'):
                return ('map', 'r+', a)
            return ('map', None, 'computed access')
        if prot is not None:
            names = {(dotted(x) or '').split('.')[-1] for x in ast.walk(prot)}
            fl = kw(n, 'flags', None)
            if 'PROT_WRITE' in names and not (fl is not None and 'MAP_PRIVATE' in ast.dump(fl)):
                return ('map', 'r+', 'PROT_WRITE')
            if 'PROT_READ' in names:
                return ('map', 'r', 'PROT_READ')
            return ('map', None, '')
        return ('map', 'r+', 'default access (shared, writable)')
    if last == 'File' and (d.startswith('h5py') or d == 'File'):
        e = kw(n, 'mode', 1)
        m = 'r' if e is None else fold(e, f, mod)
        return ('h5', m if isinstance(m, str) else None, m)
    if last == 'memmap' and d.split('.')[0] in ('np', 'numpy', 'memmap'):
        e = kw(n, 'mode', 2)
        m = 'r+' if e is None else fold(e, f, mod)
        if not isinstance(m, str):
            return ('memmap', None, '')
        m = {'readonly': 'r', 'copyonwrite': 'c', 'readwrite': 'r+', 'write': 'w+'}.get(m, m)
        return ('memmap', m, m)
    return None


def writable(kind, m):
    if kind == 'h5':
        return m != 'r'
    if kind == 'memmap':
        return m not in ('r', 'c')
    return any(c in m for c in 'wa+x')


class Uses:
    """what is done with the handle of an opening call"""

    def __init__(self, eff):
        self.eff = eff

    def of(self, call, fnode, mod, depth=0):
        """set of 'r', 'w', '?'"""
        out = set()
        p = call._parent
        names = set()
        if isinstance(p, ast.withitem) and p.context_expr is call and isinstance(p.optional_vars, ast.Name):
            names.add(p.optional_vars.id)
        elif isinstance(p, ast.Assign) and p.value is call:
            for t in p.targets:
                if isinstance(t, ast.Name):
                    names.add(t.id)
                else:
                    out.add('?')
        elif isinstance(p, ast.Attribute):
            out.add(self.verb(p.attr))
        elif isinstance(p, ast.Call) and call in p.args:
            out |= self.passed(p, call, mod, depth)
        elif isinstance(p, (ast.For, ast.comprehension)):
            out.add('r')
        elif isinstance(p, ast.Subscript):
            out.add('w' if isinstance(p.ctx, ast.Store) else 'r')
        else:
            out.add('?')
        body = fnode if fnode is not None else mod.tree
        return out | self.names(names, body, mod, depth)

    def names(self, names, body, mod, depth):
        out = set()
        for n in ast.walk(body):
            if not (isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)):
                continue
            p = n._parent
            if isinstance(p, ast.Attribute):
                out.add(self.verb(p.attr))
            elif isinstance(p, ast.Subscript) and p.value is n:
                # f['x'] may itself be stored into or created under
                q, c = p._parent, p
                w = 'w' if isinstance(p.ctx, (ast.Store, ast.Del)) else 'r'
                while isinstance(q, (ast.Subscript, ast.Attribute)) and q.value is c:
                    if isinstance(q, ast.Subscript) and isinstance(q.ctx, (ast.Store, ast.Del)):
                        w = 'w'
                    if isinstance(q, ast.Attribute) and (q.attr in WRITE or isinstance(q.ctx, ast.Store)):
                        w = 'w'
                    c, q = q, q._parent
                out.add(w)
            elif isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
                out.add('r')
            elif isinstance(p, ast.Compare):
                out.add('r')
            elif isinstance(p, ast.keyword):
                c = p._parent
                out.add('w' if p.arg in ('file', 'stream', 'fp', 'out') and isinstance(c, ast.Call) and
                        (dotted(c.func) in ('print',) or (dotted(c.func) or '').split('.')[-1] in WRITERS) else
                        ('w' if p.arg == 'file' else '?'))
            elif isinstance(p, ast.Call) and any(n is a for a in p.args):
                out |= self.passed(p, n, mod, depth)
            elif isinstance(p, ast.withitem):
                pass
            elif isinstance(p, ast.Expr):
                pass
            elif isinstance(p, (ast.If, ast.While, ast.UnaryOp, ast.BoolOp)):
                pass
            else:
                out.add('?')
        return out

    @staticmethod
    def verb(a):
        if a in WRITE:
            return 'w'
        if a in READ or a in ('shape', 'dtype', 'T', 'size', 'ndim', 'sum', 'mean', 'attrs'):
            return 'r' if a != 'close' else 'n'
        return '?'

    def passed(self, call, arg, mod, depth):
        d = dotted(call.func) or ''
        last = d.split('.')[-1]
        if last in WRITERS or last.startswith('write'):
            return {'w'}
        if last in ('load', 'safe_load', 'full_load', 'loads', 'loadtxt', 'genfromtxt', 'list', 'len', 'iter', 'enumerate', 'mmap',
                    'array', 'reader', 'next', 'fromfile', 'load_all', 'sorted', 'zip', 'islice', 'asarray'):
            return {'r'}
        if d == 'print' or last == 'isinstance':
            return set()
        if depth < 4:
            for g, bound in self.eff.callees(call, mod):
                ps = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                if bound:
                    ps = ps[1:]
                i = call.args.index(arg)
                if i < len(ps):
                    return self.names({ps[i]}, g.node, g.mod, depth + 1)
        return {'?'}


def run(rep):
    prog = Program()
    nm = Names(prog)
    eff = Effects(prog, nm)
    rep.rule('open', 'a file that is only read is opened (and mapped) without write access')
    rep.rule('replace', 'no function writes, removes or renames the file it reads its input from')
    rep.rule('argument', 'no function changes the array or container it was given')
    rep.rule('stored', 'no function changes in place the data a getter handed out')
    uses = Uses(eff)
    n_open = 0
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or nm.never(n, m):
                continue
            f = n._parent
            while f is not None and not isinstance(f, ast.FunctionDef):
                f = getattr(f, '_parent', None)
            o = opening(n, f, m)
            if o is None:
                continue
            n_open += 1
            kind, mode, desc = o
            where = '%s:%d' % (m.rel, n.lineno)
            fn = f.name if f is not None else '<module>'
            if mode is None:
                rep.skip('open', where, 'the mode is computed')
                continue
            if not writable(kind, mode):
                rep.ok('open', '%s in %s is opened %s' % (kind, fn, desc))
                continue
            u = uses.of(n, f, m)
            if isinstance(n._parent, ast.Assign) and kind == 'memmap' or kind == 'memmap' and mode == 'w+':
                u.add('w')
            if 'w' in u:
                rep.ok('open', '%s in %s is opened %s and written' % (kind, fn, desc))
            elif '?' in u:
                rep.skip('open', where, 'the handle is passed on')
            elif 'r' in u:
                rep.bad('open', '%s:%s:%s' % (m.rel, fn, kind), where, 'this %s is only read but opened with write access (%s)' % (
                    {'file': 'file', 'map': 'memory map', 'h5': 'HDF5 file', 'memmap': 'memory-mapped array'}[kind], desc))
            elif kind in ('file', 'h5') and ('w' in mode or 'x' in mode):
                rep.ok('open', '%s in %s is created' % (kind, fn))
            else:
                rep.skip('open', where, 'the handle is not used')
    rep.need(n_open > 5, 'no place that opens files is left')
    replace(rep, prog, nm)
    for f in eff.funcs:
        if isinstance(f.node._parent, (ast.FunctionDef,)):
            continue
        k = id(f.node)
        hits = 0
        for r, (node, text) in sorted(eff.eff[k].items(), key=str):
            if r[0] == 'P':
                if r[1] in ('self', 'cls') or (k in eff.called and k not in eff.exposed):
                    continue
                hits += 1
                rep.bad('argument', '%s:%s' % (f.qual, r[1]), f.where(node),
                        '%s changes the data given as %s in place (%s)' % (f.name, r[1], text))
            else:
                if r[1] in ('cls',):
                    continue
                hits += 1
                rep.bad('stored', '%s:%s.%s' % (f.qual, r[1], r[2]), f.where(node),
                        '%s changes what is stored in %s.%s in place (%s)' % (f.name, r[1], r[2], text))
        if not hits:
            rep.counts['argument'] += 1
    rep.instances.append('argument: %d functions analysed for in-place effects on arguments and stored data' % len(eff.funcs))
    rep.info['functions_analysed'] = len(eff.funcs)
    rep.info['opening_calls'] = n_open


def replace(rep, prog, nm):
    """a path parameter that is both read and written, removed or renamed in one function"""
    for f in nm.funcs:
        if not isinstance(f.node, ast.FunctionDef):
            continue
        stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        ps = set(f.params()) - stored
        rd, wr = {}, {}
        for n in own(f.node):
            if not isinstance(n, ast.Call) or not n.args:
                continue
            a = n.args[0]
            if not (isinstance(a, ast.Name) and a.id in ps):
                continue
            o = opening(n, f.node, f.mod)
            d = dotted(n.func) or ''
            if o is not None and o[1] is not None and o[0] != 'map':
                (wr if writable(o[0], o[1]) else rd).setdefault(a.id, n)
            elif d in REMOVERS and d not in ('shutil.copyfile', 'shutil.copy'):
                wr.setdefault(a.id, n)
            elif d.split('.')[-1] in ('loadtxt', 'genfromtxt', 'fromfile'):
                rd.setdefault(a.id, n)
        for p in rd:
            if p in wr:
                rep.bad('replace', '%s:%s' % (f.qual, p), f.where(wr[p]), 'the file %s is read and then written or removed' % p)
            else:
                rep.ok('replace', '%s reads %s and does not touch it otherwise' % (f.qual, p))
