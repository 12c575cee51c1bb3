"""C23: atoms taken from a live LAMMPS run are matched to the structure by atom id."""
import ast

from ..model import Program
from ..names import dotted
from .c09 import World, bind, default, own

MOVES = ('run', 'minimize', 'replicate', 'read_', 'rerun', 'create_atoms', 'delete_atoms', 'reset_', 'set ', 'change_box', 'displace_atoms')
KEEP = {'array', 'asarray', 'ascontiguousarray', 'list', 'copy', 'astype', 'require', 'tolist', 'ctypeslib', 'as_array', 'asanyarray'}


class Machine:
    """abstract execution of a function which talks to LAMMPS

    values:  ('lmp',)  ('raw', what, epoch)  ('flat', what, epoch)  ('ids', epoch)  ('perm', epoch) order by id
             ('rows', what, epoch, ops)  ('template', ok)  ('tperm', ok)  ('energy', epoch)  ('list', name)  None unknown
    epoch: number of commands so far which let LAMMPS reorder or move its atoms
    """

    def __init__(self, w, f, rep, key, depth=0):
        self.w, self.f, self.rep, self.key, self.depth = w, f, rep, key, depth
        self.env = {}
        self.epoch = [0]
        self.kept = []          # (node, list name, value, epoch, loop)
        self.loops = []
        self.runs = []          # run commands: (node, loop)
        self.bad = []
        self.returned = None
        self.raws = []

    def ev(self, e):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            return self.env.get(e.id)
        if isinstance(e, ast.Attribute):
            if e.attr in ('real', 'T') and e.attr == 'real':
                return self.ev(e.value)
            v = self.ev(e.value)
            return None
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            if v is None:
                return None
            i = e.slice.elts[0] if isinstance(e.slice, ast.Tuple) and e.slice.elts else e.slice
            if isinstance(i, ast.Slice):
                if i.lower is None and i.step is None:
                    return v
                return None
            return self.select(v, i, e)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            order = self.ev(g.iter)
            raws = []
            arith = any(isinstance(n, (ast.BinOp,)) for n in ast.walk(e.elt))
            for n in ast.walk(e.elt):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                    v = self.env.get(n.value.id)
                    if v is not None and v[0] in ('raw', 'rows', 'ids', 'perm') and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.slice)):
                        raws.append((v, n))
            if raws and len({r[0] for r in raws}) == 1:
                v, n = raws[0]
                if v[0] == 'raw':
                    self.fresh(v, n)
                    if v[1] == 'id':
                        out = ('ids', v[2]) if not arith else ('ids-1', v[2])
                    else:
                        out = ('rows', v[1], v[2], ())
                else:
                    out = v
                if order is not None and order[0] in ('perm', 'tperm'):
                    return self.pick(out, order, e)
                return out
            # rows of an iterable itself
            if order is not None and order[0] == 'rows' and not arith:
                return order
            if order is not None and order[0] == 'raw':
                self.fresh(order, e)
                return ('ids', order[2]) if order[1] == 'id' and not arith else ('rows', order[1], order[2], ()) if order[1] != 'id' else None
            return None
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, ast.MatMult):       # a product on the right mixes coordinates, not atoms
                return a if a is not None and a[0] == 'rows' and b is None else None
            v = a if a is not None else b
            if a is not None and b is not None:
                return None
            if v is not None and v[0] == 'ids' and isinstance(e.op, (ast.Sub, ast.Add)):
                return ('ids-1', v[1])
            return v if v is not None and v[0] in ('rows', 'energy') else None
        return None

    def fresh(self, v, n):
        if v[2] != self.epoch[0]:
            self.bad.append(('id-order', n, 'the %s are read through a pointer taken before the last run' % {'x': 'positions', 'v': 'velocities', 'id': 'ids'}.get(v[1], v[1])))

    def select(self, v, i, node):
        t = self.ev(i)
        if v[0] == 'rows':
            if t is None:
                if isinstance(i, (ast.Constant, ast.Slice)):
                    return None
                return ('rows', v[1], v[2], v[3] + (('?',),))
            return self.pick(v, t, node)
        if v[0] in ('perm', 'ids', 'tperm', 'template') and t is not None:
            return None
        return None

    def pick(self, v, t, node):
        if t[0] == 'perm':
            return ('rows', v[1], v[2], v[3] + (('id', t[1]),))
        if t[0] in ('ids', 'ids-1'):
            self.bad.append(('id-order', node, 'the rows are picked by the ids themselves: row i gets the atom at the place given by the i-th id, not the atom with the i-th id'))
            return ('rows', v[1], v[2], v[3] + (('?',),))
        if t[0] == 'tperm':
            return ('rows', v[1], v[2], v[3] + (('template', t[1]),))
        if t[0] == 'template':
            return ('rows', v[1], v[2], v[3] + (('inverse', t[1]),))
        return ('rows', v[1], v[2], v[3] + (('?',),))

    def call(self, e):
        d = dotted(e.func) or ''
        last = d.split('.')[-1] if d else (e.func.attr if isinstance(e.func, ast.Attribute) else '')
        full = self.w.full(self.f.mod, e.func) or ''
        if full.startswith('lammps.') or full == 'lammps':
            return ('lmp',)
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value)
            if b == ('lmp',):
                return self.lmp(e, last)
        if last in ('argsort',):
            v = self.ev(e.args[0]) if e.args and full.startswith('numpy.') else self.ev(e.func.value) if isinstance(e.func, ast.Attribute) else None
            if v is None:
                return None
            if v[0] in ('ids', 'ids-1'):
                return ('perm', v[1])
            if v[0] == 'raw' and v[1] == 'id':
                return ('perm', v[2])
            if v[0] == 'template':
                return ('tperm', v[1])
            if v[0] == 'perm':
                return ('ids-1', v[1])
            return None
        if last in ('dot', 'matmul') and e.args:
            ops = list(e.args) if full.startswith('numpy.') else [e.func.value] + list(e.args) if isinstance(e.func, ast.Attribute) else []
            if len(ops) == 2:
                a, b = self.ev(ops[0]), self.ev(ops[1])
                if a is not None and a[0] == 'raw' and a[1] != 'id':
                    self.fresh(a, e)
                    a = ('rows', a[1], a[2], ())
                return a if a is not None and a[0] == 'rows' and b is None else None
        if last == 'take' and len(e.args) >= 2:
            v, t = self.ev(e.args[0]), self.ev(e.args[1])
            return self.pick(v, t, e) if v is not None and v[0] == 'rows' and t is not None else None
        if last == 'get_correct_arrangement' and e.args:
            v = self.ev(e.args[0])
            if v is None or v[0] != 'rows' or ('?',) in v[3]:
                return ('template', None)
            ok = v[3] == (('id', v[2]),)
            if not ok:
                self.bad.append(('id-order', e, 'the arrangement is found from positions that are not in the order of the ids'))
            return ('template', ok)
        if last == 'reshape' and isinstance(e.func, ast.Attribute):
            return self.flat(self.ev(e.args[0]) if full.startswith('numpy.') else self.ev(e.func.value))
        if last in KEEP:
            if full.startswith(('numpy.', 'copy.')) or not isinstance(e.func, ast.Attribute) or last in ('as_array',):
                v = self.ev(e.args[0]) if e.args else None
            else:
                v = self.ev(e.func.value)
            if v is not None and v[0] == 'raw' and v[1] != 'id':
                self.fresh(v, e)
                return ('rows', v[1], v[2], ())
            if v is not None and v[0] == 'raw':
                return ('ids', v[2])
            return v
        t = self.w.target(self.f.mod, e, self.f.cls)
        if t is not None and self.depth < 3 and not isinstance(t.node, ast.Lambda):
            b = bind(t, e)
            if b is None:
                return None
            m = Machine(self.w, t, self.rep, self.key, self.depth + 1)
            m.epoch = self.epoch
            m.bad = self.bad
            m.kept = self.kept
            m.loops = self.loops
            m.runs = self.runs
            m.raws = self.raws
            if t.node in [n for n in ast.walk(self.f.node)]:
                m.env = dict(self.env)
            m.consts = {}
            for p in t.params():
                a = b.get(p)
                m.env[p] = self.ev(a) if a is not None else None
                if isinstance(a, ast.Constant):
                    m.consts[p] = a.value
            if any(v is not None for v in m.env.values()):
                m.block(t.node.body)
                return m.returned
        return None

    consts = {}

    def text(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.Name) and isinstance(self.consts.get(e.id), str):
            return self.consts[e.id]
        if isinstance(e, ast.JoinedStr) and e.values and isinstance(e.values[0], ast.Constant):
            return e.values[0].value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            return self.text(e.func.value)
        if isinstance(e, ast.BinOp):
            return self.text(e.left)
        return ''

    def flat(self, v):
        if v is not None and v[0] == 'flat':
            return ('rows', v[1], v[2], (('id', v[2]),))
        return v

    def lmp(self, e, name):
        a0 = e.args[0] if e.args else None
        what = self.text(a0) if a0 is not None else ''
        if name == 'command':
            if what.lstrip().startswith(MOVES):
                self.epoch[0] += 1
                if what.lstrip().startswith('run'):
                    self.runs.append((e, self.loops[-1] if self.loops else None))
            return None
        if name in ('file', 'commands_list', 'commands_string'):
            self.epoch[0] += 1
            return None
        if name in ('extract_atom', 'gather_atoms'):
            if what not in ('x', 'v', 'id'):
                return None
            self.raws.append(e)
            if name == 'gather_atoms':
                return ('flat', what, self.epoch[0]) if what != 'id' else None
            return ('raw', what, self.epoch[0])
        if name == 'extract_variable':
            return ('energy', self.epoch[0])
        return None

    # -- statements -------------------------------------------------------
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, None)

    def keep(self, node, name, arg):
        v = self.flat(self.ev(arg))
        self.kept.append((node, name, v, self.epoch[0], self.loops[-1] if self.loops else None))

    def block(self, body):
        for s in body:
            if self.stmt(s) == 'stop':
                return 'stop'

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and \
                    len(s.targets[0].elts) == len(s.value.elts):
                vals = [self.ev(x) for x in s.value.elts]
                for x, v in zip(s.targets[0].elts, vals):
                    self.assign(x, v)
                return
            v = self.ev(s.value)
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and v is not None and v[0] in ('rows', 'energy', 'flat'):
                    self.kept.append((s, t.value.id, self.flat(v), self.epoch[0], self.loops[-1] if self.loops else None))
                else:
                    self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and isinstance(s.value, ast.List) and len(s.value.elts) == 1:
                self.keep(s, s.target.id, s.value.elts[0])
        elif isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and isinstance(v.func.value, ast.Name) and v.args:
                self.keep(s, v.func.value.id, v.args[0])
            else:
                self.ev(v)
        elif isinstance(s, ast.Return):
            self.returned = self.ev(s.value)
            return 'stop'
        elif isinstance(s, (ast.Break, ast.Continue, ast.Raise)):
            return 'stop'
        elif isinstance(s, ast.If):
            self.ev(s.test) if isinstance(s.test, ast.Call) else None
            before, ep = dict(self.env), self.epoch[0]
            a = self.block(s.body)
            ea, ca = self.env, self.epoch[0]
            self.env, self.epoch[0] = dict(before), ep
            b = self.block(s.orelse)
            eb, cb = self.env, self.epoch[0]
            if a == 'stop' and b == 'stop':
                return 'stop'
            if a == 'stop':
                return
            if b == 'stop':
                self.env, self.epoch[0] = ea, ca
                return
            self.env = {k: (ea.get(k) if ea.get(k) == eb.get(k) else None) for k in set(ea) | set(eb)}
            self.epoch[0] = max(ca, cb)
        elif isinstance(s, (ast.For, ast.While)):
            self.loops.append(s)
            if isinstance(s, ast.For):
                self.assign(s.target, None)
            self.block(s.body)
            if self.runs or self.kept:
                first = len(self.kept)
                self.block(s.body)              # a later turn: what was found before is now older
            self.loops.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                keep = dict(self.env)
                self.block(h.body)
                self.env = keep
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            return self.block(s.body)


def run(rep):
    prog = Program()
    w = World(prog)
    rep.rule('id-order', 'the rows of each stored array are put in the order of the atom ids as they are at that step, then in the arrangement of the structure')
    rep.rule('same-step', 'everything stored in one turn of the sampling loop comes from the same step')
    rep.rule('time', 'the time contains the number of steps between samples')
    n = 0
    for f in w.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        if not any(isinstance(c, ast.Call) and (w.full(f.mod, c.func) or '').startswith('lammps.') for c in own(f.node)):
            continue
        n += 1
        key = '%s:%s' % (f.mod.rel, f.qual.split(':')[1])
        m = Machine(w, f, rep, key)
        m.consts = {}
        m.block(f.node.body)
        judge(rep, f, key, m, w, prog)
    rep.need(n, 'no function starts LAMMPS')
    rep.assumptions.append('gather_atoms gives the atoms in the order of their ids (LAMMPS documentation); extract_atom gives them in the order LAMMPS holds them, valid until the next run.')


def judge(rep, f, key, m, w, prog):
    seen = set()
    for rule, node, text in m.bad:
        rep.bad(rule, '%s:%s' % (key, text[:60]), f.where(node), text)
    frames = [k for k in m.kept if k[2] is not None and k[2][0] == 'rows']
    if not frames and not any(k[2] is None and k[4] is not None for k in m.kept):
        rep.skip('id-order', key, 'no frame is seen to be stored')
    for node, name, v, ep, loop in m.kept:
        if v is None:
            if loop is not None and ('None', name) not in seen and not any(k[1] == name and k[2] is not None for k in m.kept):
                seen.add(('None', name))
                rep.skip('id-order', '%s:%s' % (key, name), 'value not followed')
            continue
        if v[0] == 'raw':
            rep.bad('id-order', '%s:%s' % (key, name), f.where(node), 'the memory of LAMMPS itself is stored: every stored frame shows the last step')
            continue
        if v[0] != 'rows':
            continue
        k = '%s:%s' % (key, name)
        ops = v[3]
        if ('?',) in ops:
            rep.skip('id-order', k, 'order not followed')
            continue
        ids = [o for o in ops if o[0] == 'id']
        tps = [o for o in ops if o[0] != 'id']
        if not ids:
            rep.bad('id-order', k, f.where(node), 'stored in the order in which LAMMPS holds the atoms')
        elif len(ids) > 1:
            rep.bad('id-order', k, f.where(node), 'put in the order of the ids twice')
        elif ids[0][1] != v[2]:
            rep.bad('id-order', k, f.where(node), 'put in the order the ids had before the last run')
        elif tps and ops[0][0] != 'id':
            rep.bad('id-order', k, f.where(node), 'arranged before being put in the order of the ids')
        elif len(tps) != 1:
            rep.bad('id-order', k, f.where(node), 'the arrangement of the structure is applied %d times' % len(tps))
        elif tps[0][0] == 'inverse':
            rep.bad('id-order', k, f.where(node), 'the inverse of the arrangement of the structure is applied')
        elif tps[0][1] is None:
            rep.skip('id-order', k, 'arrangement not followed')
        elif k not in seen:
            seen.add(k)
            rep.ok('id-order', k + ' rows [argsort(ids)][arrangement]')
    # same step: per loop, the values kept in one turn
    loops = {}
    for node, name, v, ep, loop in m.kept:
        if loop is not None and v is not None and v[0] in ('rows', 'energy'):
            loops.setdefault(id(loop), []).append((node, name, v[2] if v[0] == 'rows' else v[1], ep, loop))
    for ks in loops.values():
        half = [x for x in ks]
        by = {}
        names = []
        for node, name, e, ep, loop in half:
            by.setdefault(name, []).append((e, node))
        turns = min(len(x) for x in by.values())
        bad = None
        for i in range(turns):
            es = {x[i][0] for x in by.values()}
            if len(es) > 1:
                bad = next(iter(by.values()))[i][1]
        for name, xs in by.items():
            if len(xs) > 1 and len({e for e, _ in xs}) == 1:
                bad = bad or xs[0][1]
        if bad is not None:
            rep.bad('same-step', key, f.where(bad), 'what is stored in one turn comes from different steps, or the same step is stored in every turn')
        else:
            rep.ok('same-step', '%s: %s' % (key, ', '.join(sorted(by))))
    timing(rep, f, key, m, w, prog)


def timing(rep, f, key, m, w, prog):
    from ..readers import arguments, ctor
    from .c08 import ReaderExec
    args = []
    for e, loop in m.runs:
        if loop is None:
            continue
        a = e.args[0]
        x = None
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'format' and len(a.args) == 1:
            x = a.args[0]
        elif isinstance(a, ast.JoinedStr):
            fs = [v.value for v in a.values if isinstance(v, ast.FormattedValue)]
            x = fs[0] if len(fs) == 1 else None
        elif isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Mod, ast.Add)):
            x = a.right
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'str':
                x = x.args[0]
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'int' and len(x.args) == 1:
            x = x.args[0]
        if isinstance(x, ast.Name):
            args.append(x.id)
        else:
            return rep.skip('time', key, 'run length not followed')
    if len(set(args)) != 1:
        return rep.skip('time', key, 'run length not followed')
    ex = ReaderExec(prog, f, w, ())
    ex.unit = args[0]
    ex.calls = {id(c) for c in own(f.node) if ctor(prog, f.mod, c)}
    ex.run()
    for kind, call, st, _ in ex.events:
        if kind != 'call':
            continue
        a = arguments(prog, call) or {}
        if 'time' in a:
            p = ex.power(a['time'], st)
            if p is None:
                rep.skip('time', key, 'formula not followed')
            elif p != 1:
                rep.bad('time', key, f.where(call), 'frames are %s steps apart and the time contains %s to the power %d' % (args[0], args[0], p))
            else:
                rep.ok('time', '%s: frames %s steps apart' % (key, args[0]))
