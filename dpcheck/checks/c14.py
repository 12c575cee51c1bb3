"""C14: every registered power spectrum algorithm obeys one interface."""
import ast
import math

from ..model import Program
from ..names import dotted
from ..reach import Reach
from ..report import Report
from . import c22

LIBS = {'np', 'numpy', 'cp', 'cupy', 'scipy', 'pyfftw', 'fft', 'torch', 'math'}


class V:
    """abstract value: kind (what it holds), cplx (True/False/None), f (numeric factor), dt, size (powers of time step and data size)"""
    __slots__ = ('kind', 'cplx', 'f', 'dt', 'size', 'items')

    def __init__(self, kind=None, cplx=None, f=1.0, dt=0, size=0, items=None):
        self.kind, self.cplx, self.f, self.dt, self.size, self.items = kind, cplx, f, dt, size, items

    def but(self, **k):
        v = V(self.kind, self.cplx, self.f, self.dt, self.size, self.items)
        for a, b in k.items():
            setattr(v, a, b)
        return v

    def join(self, o):
        if o is None:
            return self
        r = V()
        for a in ('kind', 'cplx', 'f', 'dt', 'size'):
            x, y = getattr(self, a), getattr(o, a)
            setattr(r, a, x if x == y else None)
        r.items = self.items if self.items is not None else o.items
        return r


def mul(a, b, s=1):
    """the product (s = 1) or quotient (s = -1)"""
    if a.kind in ('num', 'dt', 'size') and b.kind not in ('num', 'dt', 'size') and s == 1:
        a, b = b, a
    r = a.but()
    for x in ('dt', 'size'):
        p, q = getattr(a, x), getattr(b, x)
        setattr(r, x, None if p is None or q is None else p + s * q)
    r.f = None if a.f is None or b.f is None or b.f == 0 and s < 0 else a.f * b.f if s > 0 else a.f / b.f
    if b.kind not in ('num', 'dt', 'size'):
        r.kind = a.kind if a.kind == b.kind else None
        r.cplx = True if a.cplx is True or b.cplx is True else False if a.cplx is False and b.cplx is False else None
    return r


class Algo:
    def __init__(self, rep, prog, mod, func, args, depth=0, entry=None):
        self.rep, self.prog, self.mod, self.func, self.depth = rep, prog, mod, func, depth
        self.entry = entry or func.name
        self.reach = Reach(func.node)
        self.args = dict(zip(func.params(), args))
        self.memo = {}
        self.busy = set()
        self.events = []          # (rule, key, where, text or None)

    def where(self, n):
        return '%s:%d' % (self.mod.rel, n.lineno)

    def ret(self):
        out = None
        n = 0
        for r in self.reach.ret:
            if r.value is not None:
                v = self.val(r.value)
                out = v if n == 0 else out.join(v)
                n += 1
        return out or V()

    def val(self, e):
        k = id(e)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return V()
        self.busy.add(k)
        v = self._val(e) or V()
        self.busy.discard(k)
        self.memo[k] = v
        return v

    def name(self, e):
        if e.id in self.args and any(d.kind == 'param' for d in self.reach.defs(e)) and len(self.reach.defs(e)) == 1:
            return self.args[e.id]
        out = None
        for d in sorted(self.reach.defs(e), key=lambda d: getattr(d.stmt, 'lineno', 0)):
            v = self.defval(d, e)
            out = v if out is None else out.join(v)
        if out is not None and out.kind == 'list':
            items = None
            for n in ast.walk(self.func.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == e.id and n.args:
                    x = self.val(n.args[0])
                    items = x if items is None else items.join(x)
            if items is not None:
                out = out.but(items=items)
        return out

    def defval(self, d, e):
        if d.kind == 'assign':
            if d.path == ():
                return self.val(d.value)
            v = d.value
            for i in d.path:
                if isinstance(v, (ast.Tuple, ast.List)) and i < len(v.elts):
                    v = v.elts[i]
                else:
                    return V()
            return self.val(v)
        if d.kind == 'aug':
            base = None
            for p in d.prev or ():
                v = self.defval(p, e)
                base = v if base is None else base.join(v)
            base = base or V()
            o = self.val(d.stmt.value)
            if isinstance(d.stmt.op, ast.Mult):
                return mul(base, o)
            if isinstance(d.stmt.op, ast.Div):
                return mul(base, o, -1)
            return base
        if d.kind == 'for':
            v = self.val(d.value)
            if isinstance(d.value, ast.Call) and dotted(d.value.func) == 'enumerate' and d.value.args:
                if d.path == (1,):
                    return self.element(self.val(d.value.args[0]))
                if d.path == (0,) and self.val(d.value.args[0]).kind == 'dataT':
                    return V('modeindex', False)
                return V('index', False)
            if d.path == ():
                return self.element(v)
            return V()
        if d.kind == 'free':
            x = self.mod.resolve(d.name)
            if x and x[0] == 'value' and len(x[2]) == 1:
                c = x[2][0]
                if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)):
                    return V('num', False, float(c.value))
        return V()

    def element(self, v):
        if v.kind == 'dataT':
            return v.but(kind='column')
        if v.kind == 'moderange':
            return V('modeindex', False)
        if v.kind == 'list' and v.items is not None:
            return v.items
        return V()

    def _val(self, e):
        if isinstance(e, ast.Constant):
            return V('num', isinstance(e.value, complex), float(e.value)) if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else V()
        if isinstance(e, ast.Name):
            return self.name(e)
        if isinstance(e, (ast.List,)):
            return V('list', None)
        if isinstance(e, ast.ListComp):
            return V('list', None, items=self.val(e.elt))
        if isinstance(e, ast.Attribute):
            b = self.val(e.value)
            if e.attr == 'T':
                return b.but(kind={'fm': 'mf', 'mf': 'fm', 'data': 'dataT', 'dataT': 'data'}.get(b.kind, b.kind))
            if e.attr == 'real' or e.attr == 'imag':
                return b.but(cplx=False)
            if e.attr == 'size' and b.kind == 'column':
                return V('size', False, size=1)
            if e.attr == 'shape':
                return V('shape' if b.kind == 'data' else 'shapeT' if b.kind == 'dataT' else 'shape1' if b.kind == 'column' else None, False)
            if b.kind == 'parameters':
                if e.attr == 'frequency_range':
                    return V('freq', False)
                return V('setting', False)
            return V()
        if isinstance(e, ast.UnaryOp):
            return self.val(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left), self.val(e.right)
            if isinstance(e.op, ast.Mult):
                return mul(a, b)
            if isinstance(e.op, ast.Div):
                return mul(a, b, -1)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                if a.kind in ('modecount', 'modeindex') or b.kind in ('modecount', 'modeindex'):
                    return V('offset', False)
                return a.join(b)
            return V()
        if isinstance(e, ast.Subscript):
            return self.subscript(e)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            return self.val(e.body).join(self.val(e.orelse))
        return V()

    def subscript(self, e):
        b = self.val(e.value)
        s = e.slice
        if b.kind in ('shape', 'shapeT', 'shape1') and isinstance(s, ast.Constant):
            i = s.value
            if b.kind == 'shape1':
                return V('size', False, size=1)
            if i in (1, -1):
                return V('modecount' if b.kind == 'shape' else 'stepcount', False)
            return V('stepcount' if b.kind == 'shape' else 'modecount', False)
        if b.kind in ('data', 'dataT'):
            cols = s if b.kind == 'dataT' else None
            if isinstance(s, ast.Tuple) and len(s.elts) == 2:
                full = [isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None for x in s.elts]
                if b.kind == 'data':
                    step, cols = s.elts
                    if full[0]:
                        self.column(e, cols)
                        return b.but(kind='column')
                    if not isinstance(step, ast.Slice) and full[1]:
                        self.events.append(('modes', '%s:row' % self.entry, self.where(e), 'a time step (row) is analysed in place of a mode (column)'))
                        return V()
                    if isinstance(step, ast.Slice):
                        self.events.append(('modes', '%s:steps' % self.entry, self.where(e), 'only a part of the steps of the data is analysed'))
                        return b.but(kind='column')
                else:
                    cols, step = s.elts
                    if full[1]:
                        self.column(e, cols)
                        return b.but(kind='column')
                return V()
            if b.kind == 'dataT' and not isinstance(s, ast.Slice):
                self.column(e, s)
                return b.but(kind='column')
            if b.kind == 'data' and not isinstance(s, (ast.Slice, ast.Tuple)) and self.val(s).kind == 'modeindex':
                self.events.append(('modes', '%s:row' % self.entry, self.where(e), 'a time step (row) is analysed in place of a mode (column)'))
            return V()
        if b.kind == 'freq':
            if isinstance(s, ast.Slice):
                if s.lower is None and s.upper is None and s.step is None:
                    return b
                return V('freqpart', False)
            return V('freq1', False)
        if b.kind == 'column' and isinstance(s, ast.Slice):
            return b
        if b.kind == 'column':
            return b                 # indexed by an order or a mask
        if b.kind == 'spec' and isinstance(s, ast.Slice):
            return b if s.lower is None and s.upper is None and s.step is None else V()
        return V()

    def column(self, e, c):
        k = self.val(c).kind
        if k == 'modeindex':
            self.events.append(('modes', '%s' % self.entry, self.where(e), None))
        elif isinstance(c, ast.Constant):
            self.events.append(('modes', '%s:fixed' % self.entry, self.where(e), 'the mode (column) %s is analysed for every mode' % c.value))
        elif k == 'offset':
            self.events.append(('modes', '%s:offset' % self.entry, self.where(e), 'the mode (column) analysed is not the one of the loop: %s' % ast.unparse(c)))

    def call(self, e):
        d = dotted(e.func) or ''
        last = d.split('.')[-1] or (e.func.attr if isinstance(e.func, ast.Attribute) else '')
        recv = e.func.value if isinstance(e.func, ast.Attribute) else None
        lib = recv is not None and d.split('.')[0] in LIBS
        args = e.args
        if isinstance(e.func, ast.Name) and not any(isinstance(a, ast.Starred) for a in args):
            f = self.mod.funcs.get(e.func.id)
            if f is not None and self.depth < 4:
                vs = [self.val(a) for a in args]
                vs = dict(zip(f.params(), vs))
                vs.update({k.arg: self.val(k.value) for k in e.keywords if k.arg})
                if any(v.kind is not None for v in vs.values()):
                    g = Algo(self.rep, self.prog, self.mod, f, [vs.get(p, V()) for p in f.params()], self.depth + 1, self.entry)
                    r = g.ret()
                    self.events += g.events
                    return r
                return V()
            if e.func.id == 'range' and args:
                lo = args[0] if len(args) > 1 else None
                hi = args[1] if len(args) > 1 else args[0]
                k = self.val(hi).kind
                start = lo is None or isinstance(lo, ast.Constant) and lo.value == 0
                if len(args) > 2 and not (isinstance(args[2], ast.Constant) and args[2].value == 1):
                    start = None
                if k == 'modecount' and start:
                    return V('moderange', False)
                if k in ('modecount', 'offset', 'stepcount') and isinstance(e._parent, (ast.For, ast.comprehension)):
                    return V('badrange:' + ast.unparse(e), False)
                return V()
            if e.func.id == 'abs' and args:
                return self.val(args[0]).but(cplx=False)
            if e.func.id == 'len' and args:
                k = self.val(args[0]).kind
                return V({'dataT': 'modecount', 'data': 'stepcount'}.get(k), False) if k in ('data', 'dataT') else V('size', False, size=1) if k == 'column' else V()
        if last in ('get_time_step_average',):
            return V('dt', False, dt=1)
        if last in ('correlation_par', 'mem') and recv is not None or last in ('correlation_par',):
            vs = [self.val(a) for a in args] + [self.val(k.value) for k in e.keywords if k.arg in ('frequency', 'velocity')]
            self.freq(e, vs)
            return V('spec', False, *self.fact(vs))
        if last == 'interp' and len(args) >= 3:
            y = self.val(args[2])
            self.freq(e, [self.val(args[0])])
            if y.kind == 'column':
                return y.but(kind='spec')
            return V('spec', y.cplx, y.f, y.dt, y.size)
        if last in ('array', 'asarray', 'stack', 'vstack', 'ascontiguousarray', 'column_stack', 'nan_to_num', 'asnumpy', 'transpose', 'copy', 'real', 'abs', 'absolute', 'sum',
                    'average', 'mean', 'correlate', 'cuda_acorrelate', 'fft', 'cuda_fft', 'squeeze', 'array_split', 'sqrt') or last.endswith('fft') or last.endswith('correlate'):
            o = args[0] if args and (lib or recv is None) else recv if recv is not None and not lib else args[0] if args else None
            if o is None:
                return V()
            v = self.val(o)
            ax = next((k.value.value for k in e.keywords if k.arg == 'axis' and isinstance(k.value, ast.Constant)), None)
            if last in ('abs', 'absolute', 'real'):
                return v.but(cplx=False)
            if last in ('correlate', 'cuda_acorrelate') or last.endswith('correlate'):
                return v
            if last.endswith('fft'):
                return v.but(cplx=True) if v.kind == 'column' else v
            if last == 'transpose':
                return v.but(kind={'fm': 'mf', 'mf': 'fm', 'data': 'dataT', 'dataT': 'data'}.get(v.kind, v.kind))
            if v.kind == 'list' and v.items is not None:
                if last in ('array', 'asarray', 'vstack') or last == 'stack':
                    if v.items.kind == 'spec':
                        k = 'mf'
                        if last == 'stack' and ax in (1, -1):
                            k = 'fm'
                        return v.items.but(kind=k)
                    if v.items.kind == 'column':
                        return v.items.but(kind='pieces')
                    return V()
                if last == 'column_stack' and v.items.kind == 'spec':
                    return v.items.but(kind='fm')
                if last in ('average', 'mean', 'sum') and ax == 0:
                    return v.items
                return V()
            if last in ('average', 'mean', 'sum'):
                return v.but(kind='column') if v.kind == 'pieces' and ax == 0 else V()
            if last in ('array', 'asarray', 'ascontiguousarray', 'nan_to_num', 'asnumpy', 'copy', 'squeeze'):
                return v
            return V()
        if last in ('multiply', 'divide') and len(args) == 2:
            return mul(self.val(args[0]), self.val(args[1]), 1 if last == 'multiply' else -1)
        return V()

    @staticmethod
    def fact(vs):
        c = [v for v in vs if v.kind == 'column']
        return (c[0].f, c[0].dt, c[0].size) if c else (1.0, 0, 0)

    def freq(self, e, vs):
        if any(v.kind == 'freqpart' for v in vs):
            self.events.append(('frequencies', self.entry, self.where(e), 'only a part of the requested frequencies is analysed'))
        elif any(v.kind == 'freq' for v in vs):
            self.events.append(('frequencies', self.entry, self.where(e), None))


def registry(prog, name):
    """module-level dictionary of this name -> (module, node, {key: value node})"""
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return m, n, [(k, v) for k, v in zip(n.value.keys, n.value.values)]
    return None


def run(rep):
    prog = Program()
    rep.rule('registry', 'each registered number selects an algorithm of its own, called with velocities, trajectory and settings')
    rep.rule('modes', 'every mode (column) is analysed over all its steps')
    rep.rule('frequencies', 'every requested frequency is analysed')
    rep.rule('layout', 'the result has one row per frequency and one column per mode')
    rep.rule('real', 'the result is real')
    rep.rule('converted', 'the result is converted to eV*ps exactly once')
    rep.rule('siblings', 'the FFT algorithms scale alike with the time step and the size of the data')
    rep.rule('inputs', 'an algorithm does not change the arrays it is given')
    rep.rule('rejected', 'an unknown number is rejected before any state changes')
    reg = registry(prog, 'power_spectrum_functions')
    rep.need(reg is not None, 'power_spectrum_functions is gone')
    m, node, items = reg
    seen, labels = {}, {}
    funcs = []
    for k, v in items:
        key = ast.unparse(k) if k is not None else '**'
        if not isinstance(v, (ast.List, ast.Tuple)) or not v.elts:
            rep.skip('registry', key, ast.unparse(v))
            continue
        f = v.elts[0]
        fn = m.funcs.get(f.id) if isinstance(f, ast.Name) else None
        if fn is None:
            rep.skip('registry', key, ast.unparse(f))
            continue
        where = '%s:%d' % (m.rel, v.lineno)
        if fn.name in seen:
            rep.bad('registry', fn.name, where, 'the algorithms %s and %s are the same function' % (seen[fn.name], key))
        else:
            rep.ok('registry', '%s: %s' % (key, fn.name))
        seen[fn.name] = key
        if len(v.elts) > 1 and isinstance(v.elts[1], ast.Constant):
            if v.elts[1].value in labels:
                rep.bad('registry', 'label:%s' % v.elts[1].value, where, 'the algorithms %s and %s have the same name' % (labels[v.elts[1].value], key))
            labels[v.elts[1].value] = key
        if fn not in funcs:
            funcs.append(fn)
    res = {}
    for fn in funcs:
        ps = fn.params()
        if len(ps) - len(fn.node.args.defaults) > 3 or len(ps) < 3:
            rep.bad('registry', 'arguments:%s' % fn.name, fn.where(), 'takes %d arguments, the algorithms are called with 3' % len(ps))
            continue
        a = Algo(rep, prog, m, fn, [V('data', True), V('trajectory'), V('parameters')] + [V()] * (len(ps) - 3))
        r = a.ret()
        res[fn.name] = (fn, r, a)
        # loops over the modes
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                k = a.val(n.iter).kind or ''
                if k.startswith('badrange:') and uses_data(n, ps[0], a):
                    a.events.append(('modes', '%s:range' % fn.name, '%s:%d' % (m.rel, n.iter.lineno), 'the loop %s does not go over all the modes (columns)' % k[9:]))
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name) and n.args and \
                    a.val(n.args[0]).kind == 'spec':
                if skipped(n, fn.node):
                    a.events.append(('modes', '%s:skipped' % fn.name, '%s:%d' % (m.rel, n.lineno), 'some modes are not stored in the result'))
        done = set()
        for rule, key, where, text in a.events:
            if text is None:
                if (rule, key) not in done:
                    rep.ok(rule, key)
            else:
                rep.bad(rule, key, where, text)
            done.add((rule, key))
        for rule in ('modes', 'frequencies'):
            if not any(x == rule for x, _ in done):
                rep.skip(rule, fn.name, 'not recognised')
        if r.kind == 'fm':
            rep.ok('layout', fn.name)
        elif r.kind in ('mf', 'list'):
            rep.bad('layout', fn.name, fn.where(), 'the result has one row per mode, not one per frequency')
        else:
            rep.skip('layout', fn.name, 'not recognised')
        if r.kind is not None and r.cplx is False:
            rep.ok('real', fn.name)
        elif r.kind is not None and r.cplx is True:
            rep.bad('real', fn.name, fn.where(), 'the spectrum returned is complex')
        else:
            rep.skip('real', fn.name, 'not recognised')
    # conversion: the factor of the majority, of the size of the conversion constant
    fs = {k: r.f for k, (fn, r, a) in res.items() if r.kind in ('fm', 'mf') and r.f is not None}
    for k, (fn, r, a) in res.items():
        if k not in fs:
            rep.skip('converted', k, 'not recognised')
            continue
        x = fs[k]
        same = sum(1 for y in fs.values() if math.isclose(x, y, rel_tol=1e-6))
        if 0.9e-4 < x < 1.2e-4 and (same * 2 > len(fs) or len(fs) == 1):
            rep.ok('converted', '%s: factor %.6g' % (k, x))
        elif 0.9e-4 < x < 1.2e-4:
            rep.bad('converted', k, fn.where(), 'the factor %.6g is not that of the other algorithms' % x)
        elif x == 1.0:
            rep.bad('converted', k, fn.where(), 'the spectrum is not converted to eV*ps')
        else:
            rep.bad('converted', k, fn.where(), 'the spectrum is multiplied by %.6g, which is not the conversion from u*A^2*THz to eV*ps' % x)
    kern = lambda a: any(isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('correlation_par', 'mem') for n in ast.walk(a.func.node))
    ff = {k: (r.dt, r.size) for k, (fn, r, a) in res.items() if not kern(a) and r.kind in ('fm', 'mf') and r.dt is not None and r.size is not None}
    for k, x in sorted(ff.items()):
        same = sum(1 for y in ff.values() if y == x)
        other = max((sum(1 for y in ff.values() if y == z) for z in ff.values() if z != x), default=0)
        if same >= other and same > 1 or len(ff) == 1:
            if same == other:
                rep.skip('siblings', k, 'no majority')
            else:
                rep.ok('siblings', '%s: time step^%d, size^%d' % (k, x[0], x[1]))
        elif other > same:
            rep.bad('siblings', k, res[k][0].where(), 'scales as time step^%d, size^%d, the other algorithms do not' % x)
    for k, (fn, r, a) in res.items():
        if not kern(a) and k not in ff:
            rep.skip('siblings', k, 'not recognised')
    inputs(rep, prog, m)
    callers(rep, prog, m)
    for name, param in (('power_spectrum_functions', None), ('fitting_functions', None)):
        rejected(rep, prog, name)


def uses_data(loop, p, a):
    body = loop.body if isinstance(loop, ast.For) else [loop._parent]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and a.val(n.value).kind in ('data', 'dataT'):
                return True
    return False


def skipped(n, body):
    """is the append not reached in some turns of its loop, without another one in their place?"""
    name = n.func.value.id

    def appends(b):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert') and dotted(x.func.value) == name
                   for s in b for x in ast.walk(s))
    c, p = n, n._parent
    while p is not None and c is not body and not (isinstance(p, (ast.For, ast.While)) and any(c is x for x in p.body)):
        if isinstance(p, ast.If):
            other = p.orelse if any(c is x for x in p.body) else p.body if any(c is x for x in p.orelse) else None
            if other is not None and not appends(other) and not ends(other):
                return True
        c, p = p, p._parent
    if isinstance(p, (ast.For, ast.While)):
        for s in p.body:
            if s is c:
                break
            if isinstance(s, ast.If) and any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)) and not appends([s]):
                return True
    return False


def inputs(rep, prog, m):
    """the in-place effects of C22, for this module"""
    s = Report('C22')
    c22.run(s)
    for v in s.violations:
        if v['where'].startswith(m.rel + ':') and v['rule'] not in ('opened', 'mode'):
            rep.bad('inputs', v['key'], v['where'], v['text'])
    for f in m.funcs.values():
        rep.ok('inputs', f.qual)


def callers(rep, prog, m):
    """calls through the registry pass (velocities, trajectory, settings)"""
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Subscript):
                t = n.func
                while isinstance(t, ast.Subscript):
                    t = t.value
                if dotted(t) is None or dotted(t).split('.')[-1] != 'power_spectrum_functions' or len(n.args) != 3:
                    continue
                a, b, c = [dotted(x) or '' for x in n.args]
                where = f.where(n)
                if b.endswith('parameters') or c.endswith('dynamic') or a.endswith('.dynamic') or a.endswith('.parameters'):
                    rep.bad('registry', '%s:call' % f.qual, where, 'the algorithm is called with (%s), not with velocities, trajectory and settings' % ', '.join(ast.unparse(x) for x in n.args))
                else:
                    rep.ok('registry', '%s calls (..., %s, %s)' % (f.qual, b, c))


def member(t, reg):
    """name tested, and whether the test is positive"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Name):
        c = t.comparators[0]
        if isinstance(c, ast.Call):
            c = c.func.value if isinstance(c.func, ast.Attribute) and c.func.attr == 'keys' else c.args[0] if c.args and dotted(c.func) in ('list', 'set', 'tuple') else c
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys':
            c = c.func.value
        if (dotted(c) or '').split('.')[-1] == reg:
            return t.left.id, isinstance(t.ops[0], ast.In)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = member(t.operand, reg)
        return (r[0], not r[1]) if r else None
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        for v in t.values:
            r = member(v, reg)
            if r and r[1]:
                return r
    return None


def ends(body):
    from ..status import __dict__ as S
    for s in body:
        if isinstance(s, (ast.Raise, ast.Return)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or '').split('.')[-1] in ('exit', 'quit', '_exit'):
            return True
    return False


def rejected(rep, prog, reg):
    """methods that store an argument as the number that later indexes the registry"""
    attrs = set()
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and (dotted(n.value) or '').split('.')[-1] == reg and isinstance(n.slice, ast.Attribute):
                attrs.add(n.slice.attr)
            if isinstance(n, ast.keyword) and n.arg and 'fitting_function' in n.arg and isinstance(n.value, ast.Attribute) and reg == 'fitting_functions':
                attrs.add(n.value.attr)
    Q = prog.find_class('Quasiparticle')
    if Q is None:
        rep.skip('rejected', reg, 'no Quasiparticle')
        return
    for f in list(Q.methods.values()):
        ps = f.params()[1:]
        stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ps and any(
            isinstance(t, ast.Attribute) and t.attr in attrs and (dotted(t) or '').startswith('self.') for t in n.targets)]
        if not stores:
            continue
        p = stores[0].value.id
        writes = []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Attribute) and (dotted(t) or '').startswith('self.') for t in ts):
                    writes.append(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and dotted(n.func.value) == 'self' and n.func.attr in Q.methods:
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(Q.methods[n.func.attr].node)) or 'clear' in n.func.attr:
                    writes.append(n)
        tests = [n for n in ast.walk(f.node) if isinstance(n, (ast.Compare, ast.UnaryOp, ast.BoolOp)) and member(n, reg)]
        other = [n for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and (dotted(n.value) or '').split('.')[-1] == reg] or \
            [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and (dotted(n.func.value) or '').split('.')[-1] == reg] or \
            [n for n in ast.walk(f.node) if isinstance(n, ast.Compare) and reg in ast.dump(n)] or \
            [n for n in ast.walk(f.node) if isinstance(n, (ast.Try,))] or \
            [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and any(isinstance(a, ast.Name) and a.id == p for a in n.args) and dotted(n.func) != 'print']
        for w in writes:
            key = '%s:%s' % (f.name, reg)
            if guarded(w, f.node, reg, p):
                rep.ok('rejected', '%s: %s' % (f.qual, ast.unparse(w)[:60]))
            elif not tests and other:
                rep.skip('rejected', f.where(w), ast.unparse(w))
            else:
                rep.bad('rejected', key, f.where(w), '%s before (or without) testing that the number exists' % ast.unparse(w)[:60])
        # the unknown number ends in an error
        for t in tests:
            s = t._parent
            while s is not None and not isinstance(s, ast.stmt):
                s = s._parent
            if not isinstance(s, ast.If) or s.test is not t:
                continue
            pos = member(t, reg)[1]
            bad = s.orelse if pos else s.body
            if ends(bad):
                rep.ok('rejected', '%s: an unknown number ends with an error' % f.qual)
            elif not bad:
                # the statements after it, if the positive branch returned
                blk = next(b for b in (getattr(s._parent, 'body', None), getattr(s._parent, 'orelse', None)) if isinstance(b, list) and s in b)
                rest = blk[blk.index(s) + 1:]
                if ends(rest) or not pos:
                    rep.ok('rejected', '%s: an unknown number ends with an error' % f.qual)
                else:
                    rep.bad('rejected', '%s:%s:error' % (f.name, reg), f.where(s), 'an unknown number is ignored silently')
            else:
                if any(isinstance(x, ast.Call) and (dotted(x.func) or getattr(x.func, 'attr', '')).split('.')[-1] not in
                       ('print', 'format', 'keys', 'values', 'items', 'list', 'sorted', 'len', 'str', 'join', 'range', 'enumerate')
                       for st in bad for x in ast.walk(st)):
                    rep.skip('rejected', f.where(s), 'end of the unknown branch')
                else:
                    rep.bad('rejected', '%s:%s:error' % (f.name, reg), f.where(s), 'an unknown number is not an error')


def guarded(w, body, reg, p):
    c, q = w, w._parent
    while q is not None and c is not body:
        if isinstance(q, ast.If):
            r = member(q.test, reg)
            if r and r[0] == p:
                if any(c is x for x in q.body) and r[1] or any(c is x for x in q.orelse) and not r[1]:
                    return True
        for fld in ('body', 'orelse'):
            b = getattr(q, fld, None)
            if isinstance(b, list) and any(c is x for x in b):
                for s in b:
                    if s is c:
                        break
                    if isinstance(s, ast.If):
                        r = member(s.test, reg)
                        if r and r[0] == p:
                            if not r[1] and ends(s.body) or r[1] and s.orelse and ends(s.orelse):
                                return True
        c, q = q, getattr(q, '_parent', None)
    return False
