"""C08: the options shared by the trajectory readers mean the same in all of them."""
import ast

from ..model import Program
from ..names import dotted
from ..readers import FRAMES, arguments, find
from ..seq import Exec, lin, lsub, ltext
from .c07 import assumed, show

FIRST = ('initial_cut', 'first_step', 'read_from')
LAST = ('end_cut', 'final_cut', 'last_cut', 'read_to')
CONSUME = {'readline', 'read', 'readlines', 'read_byte', '__next__'}
PASS = {'array', 'asarray', 'ascontiguousarray', 'copy', 'deepcopy', 'flatten', 'ravel', 'list', 'astype', 'require', 'asanyarray', 'tolist', 'reshape'}


class ReaderExec(Exec):
    """also follows: the position in the file, the transformations of a frame, the power of the time step in a value"""

    unit = 'time_step'

    def __init__(self, *a, **k):
        Exec.__init__(self, *a, **k)
        self.over = []          # assignments to the time step given by the user
        self.handles = set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'find' and isinstance(n.func.value, ast.Name):
                self.handles.add(n.func.value.id)

    # -- flags carried with the state -----------------------------------
    @staticmethod
    def get(st, kind, name):
        for f in st.flags:
            if f[0] == kind and f[1] == name:
                return f[2]
        return None

    @staticmethod
    def put_flag(st, kind, name, val):
        fl = {f for f in st.flags if not (f[0] == kind and f[1] == name)}
        if val is not None:
            fl.add((kind, name, val))
        st.flags = frozenset(fl)

    # -- permutations, products applied to the rows of a frame ------------
    def about(self, e, st):
        """text of the selection when the index comes from the template"""
        t = self.expand(e, st)
        return t if t is not None and 'template' in t else None

    def expand(self, e, st):
        if isinstance(e, ast.Name):
            return self.get(st, 'idx', e.id) or (e.id if e.id == 'template' else None)
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ''
            last = d.split('.')[-1]
            if last == 'argsort' and e.args:
                t = self.expand(e.args[0], st)
                return t and 'argsort(%s)' % t
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'argsort':
                t = self.expand(e.func.value, st)
                return t and 'argsort(%s)' % t
            if last in ('array', 'asarray', 'list') and e.args:
                return self.expand(e.args[0], st)
            for a in e.args:
                if self.expand(a, st):
                    return '?template'
        if isinstance(e, (ast.ListComp, ast.BinOp, ast.Subscript)):
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and self.expand(n, st):
                    return '?template'
        return None

    def ops(self, e, st):
        """the selections by template and the products the value went through, or None when not followed"""
        if isinstance(e, ast.Name):
            return self.get(st, 'ops', e.id) or ()
        if isinstance(e, ast.Subscript):
            b = self.ops(e.value, st)
            i = e.slice.elts[0] if isinstance(e.slice, ast.Tuple) and e.slice.elts else e.slice
            if b is None:
                return None
            t = self.about(i, st)
            return b + (('rows', t),) if t else b
        if isinstance(e, ast.Attribute) and e.attr == 'T':
            return self.ops(e.value, st)
        if isinstance(e, ast.Attribute) and e.attr in ('real', 'imag'):
            b = self.ops(e.value, st)
            return None if b is None else b + ((e.attr,),)
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ''
            last = d.split('.')[-1]
            if last in ('dot', 'matmul') and len(e.args) == 2:
                a = self.ops(e.args[0], st)
                return None if a is None else a + (('dot', ast.unparse(e.args[1])),)
            if last == 'dot' and isinstance(e.func, ast.Attribute) and len(e.args) == 1:
                a = self.ops(e.func.value, st)
                return None if a is None else a + (('dot', ast.unparse(e.args[0])),)
            if last == 'take' and e.args:
                k = [x for x in e.args[1:2]] + [x.value for x in e.keywords if x.arg == 'indices']
                a = self.ops(e.args[0], st)
                t = self.about(k[0], st) if k else None
                return None if a is None else a + (('rows', t),) if t else a
            if last in PASS and isinstance(e.func, ast.Attribute) and not (self.w.full(self.mod, e.func) or '').startswith(('numpy.', 'copy.')):
                return self.ops(e.func.value, st)
            if last in PASS and e.args:
                return self.ops(e.args[0], st)
            if any(isinstance(n, ast.Name) and (self.get(st, 'ops', n.id) or self.expand(n, st)) for n in ast.walk(e)):
                return None
            return ()
        if isinstance(e, ast.BinOp):
            a = self.ops(e.left, st)
            if isinstance(e.op, ast.MatMult):
                return None if a is None else a + (('dot', ast.unparse(e.right)),)
            b = self.ops(e.right, st)
            if a is None or b is None:
                return None
            if a and b:
                return None
            if isinstance(e.right, ast.Constant) or isinstance(e.left, ast.Constant):
                return (a or b) + ((type(e.op).__name__, ast.unparse(e.right if isinstance(e.right, ast.Constant) else e.left)),)
            return (a or b) + (('?',),)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            for n in ast.walk(e.elt):
                if isinstance(n, ast.Subscript):
                    i = n.slice
                    if any(isinstance(x, ast.Name) and self.expand(x, st) for x in ast.walk(i)):
                        return None
            return self.ops(e.generators[0].iter, st)
        return ()

    # -- power of the time step ------------------------------------------
    def power(self, e, st):
        if isinstance(e, ast.Constant):
            return 0
        if isinstance(e, ast.Name):
            if e.id == self.unit:
                return 1
            v = self.get(st, 'pow', e.id)
            if v == '?':
                return None
            return v if v is not None else (1 if e.id in ('total_time',) and e.id in self.params and self.unit == 'time_step' else 0)
        if isinstance(e, ast.BinOp):
            a, b = self.power(e.left, st), self.power(e.right, st)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Mult):
                return a + b
            if isinstance(e.op, (ast.Div, ast.FloorDiv)):
                return a - b
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return max(a, b)
            return None
        if isinstance(e, ast.IfExp):
            # a default for a parameter that was not given
            test, turn = e.test, False
            while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                test, turn = test.operand, not turn
            if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and \
                    isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
                given = e.orelse if isinstance(test.ops[0], ast.Is) != turn else e.body
                other = e.body if given is e.orelse else e.orelse
                if not any(isinstance(n, ast.Name) for n in ast.walk(other)):
                    return self.power(given, st)
            a, b = self.power(e.body, st), self.power(e.orelse, st)
            return a if a == b else None
        if isinstance(e, ast.UnaryOp):
            return self.power(e.operand, st)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            st = st.copy()
            for g in e.generators:
                p = self.power(g.iter, st)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        self.put_flag(st, 'pow', n.id, '?' if p is None else p)
            return self.power(e.elt, st)
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
                return 0
            return self.power(e.value, st)
        if isinstance(e, ast.Call):
            last = (dotted(e.func) or '').split('.')[-1]
            if last in ('len', 'int', 'count', 'readline'):
                return 0
            if last in ('arange', 'linspace', 'range', 'multiply', 'array', 'asarray', 'float', 'list', 'copy', 'concatenate', 'reversed', 'enumerate', 'round', 'cumsum'):
                if last == 'multiply' and len(e.args) == 2:
                    a, b = self.power(e.args[0], st), self.power(e.args[1], st)
                    return None if a is None or b is None else a + b
                args = list(e.args[:2]) if last == 'linspace' else list(e.args)
                args += [k.value for k in e.keywords if k.arg in ('step', 'stop', 'start')]
                ps = [self.power(a, st) for a in args]
                return None if None in ps else max(ps, default=0)
            if any(isinstance(n, ast.Name) and (n.id == self.unit or self.get(st, 'pow', n.id)) for n in ast.walk(e)):
                return None
            return 0
        if isinstance(e, (ast.List, ast.Tuple)):
            ps = [self.power(x, st) for x in e.elts]
            return None if None in ps else max(ps, default=0)
        return 0

    # -- hooks -------------------------------------------------------------
    def observe(self, s, states):
        part = s
        if isinstance(s, (ast.If, ast.While)):
            part = s.test
        elif isinstance(s, ast.For):
            part = s.iter
        elif isinstance(s, (ast.With, ast.Try, ast.FunctionDef)):
            return
        for n in ast.walk(part):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in self.handles:
                    if n.func.attr == 'seek':
                        for st in states:
                            st.cons['now:!seek'] = True
                            if len(n.args) == 1 and isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, ast.Add):
                                st.cons['now:!moved'] = True
                    elif n.func.attr in CONSUME:
                        for st in states:
                            if st.cons.get('now:!seek'):
                                st.cons['now:!moved'] = True
                elif any(isinstance(a, ast.Name) and a.id in self.handles for a in n.args):
                    for st in states:
                        st.cons['now:!moved'] = True
                    if dotted(n.func) not in ('next',):
                        for st in states:
                            st.cons['now:!seek'] = True

    def assign(self, t, value, st, node):
        if isinstance(t, ast.Name) and t.id == 'time_step' and 'time_step' in self.params and not isinstance(value, ast.IfExp) and \
                not any(isinstance(n, ast.Name) and n.id == 'time_step' for n in ast.walk(value)):
            if st.cons.get('none:time_step') is not True:
                self.over.append((node, st.copy()))
        if isinstance(t, ast.Name) and isinstance(value, ast.IfExp):
            p = self.power(value, st)
            out = Exec.assign(self, t, value, st, node)
            for s in out:
                self.put_flag(s, 'pow', t.id, '?' if p is None else p or None)
            return out
        if isinstance(t, ast.Name) and not isinstance(value, ast.IfExp):
            idx, ops, p = self.expand(value, st), self.ops(value, st), self.power(value, st)
            out = Exec.assign(self, t, value, st, node)
            for s in out:
                self.put_flag(s, 'idx', t.id, idx)
                self.put_flag(s, 'ops', t.id, ('?',) if ops is None else ops or None)
                self.put_flag(s, 'pow', t.id, '?' if p is None else p or None)
            return out
        return Exec.assign(self, t, value, st, node)

    def simple(self, s, st):
        v = s.value if isinstance(s, ast.Expr) else None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            p = self.power(ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value), st)
            out = Exec.simple(self, s, st)
            for x in out:
                self.put_flag(x, 'pow', s.target.id, '?' if p is None else p or None)
            return out
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and isinstance(v.func.value, ast.Name) and v.args:
            p = self.power(v.args[0], st)
            out = Exec.simple(self, s, st)
            for x in out:
                self.put_flag(x, 'pow', v.func.value.id, '?' if p is None else p or None)
            return out
        return Exec.simple(self, s, st)


def bound(states_tests, info, st, param):
    """tests of the step against the parameter decided in this turn: [(offset, outcome)]"""
    out = []
    for k, v in st.cons.items():
        if not k.startswith('now:') or k.startswith(('now:#', 'now:!')):
            continue
        z = info.get(k[4:])
        if z is None or z.get(param) != 1 or set(z) - {param, ''}:
            continue
        out.append((z.get('', 0), v))
    return out


def run(rep):
    prog = Program()
    rep.need(prog.find_class('Dynamics') is not None, 'class Dynamics not found')
    rep.rule('first-step', 'the first step kept is the first step requested, and no step is kept before')
    rep.rule('last-step', 'reading ends after the last step requested has been kept')
    rep.rule('moves-on', 'every turn of a loop which looks for the next step leaves the step it found, stored or not')
    rep.rule('last-steps', 'when the last steps are requested each per-step array is cut to them, memory mapped or not')
    rep.rule('capacity', 'a memory mapped array has room for all the steps requested')
    rep.rule('time-step', 'the time step of the user is used, or the reader says that it is not; it multiplies the time once')
    rep.rule('template', 'each frame is put in the order given by the template, once, the same in all readers')
    rep.rule('same-value', 'what is stored does not depend on where it is stored')
    w, readers = find(prog, ReaderExec)
    rep.need(readers, 'no function builds a trajectory object')
    n = 0
    for r in readers:
        ps = set(r.ex.params)
        first = next((p for p in FIRST if p in ps), None)
        last = next((p for p in LAST if p in ps), None)
        if not (ps & {'time_step', 'template', 'last_steps'} or first or last):
            continue
        n += 1
        one(rep, prog, r, first, last)
    rep.need(n >= 3, 'the trajectory readers are not found')
    rep.assumptions.append('The bytes searched for are taken to mark the start of each step; the meaning of the labels of each file format is not analysed.')


def framelists(r, prog):
    """lists (arrays) which end up as frames, time or energy"""
    out = {}
    for kind, call, st, _ in r.ex.events:
        if kind != 'call':
            continue
        a = arguments(prog, call) or {}
        for k, e in a.items():
            if k in FRAMES:
                v = r.ex.ev(e, st)
                if v[0] == 'seq' and v[3]:
                    out[v[3]] = k
    return out


def one(rep, prog, r, first, last):
    f, ex = r.func, r.ex
    key = '%s:%s' % (f.mod.rel, f.qual.split(':')[1])
    if r.error:
        rep.skip('first-step', key, r.error)
        return
    lists = framelists(r, prog)
    infos = {}
    for kind, node, st, d in ex.events:
        if kind in ('turn', 'break', 'stop') and d is not None:
            infos.update(d.tests)
    stores = [(n, st, d) for k, n, st, d in ex.events if k in ('append', 'store') and d[0] in lists]
    names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    calls = [(n, st) for k, n, st, _ in ex.events if k == 'call']
    # -- first step ---------------------------------------------------
    if first and stores:
        verdict, bad = None, None
        for n, st, d in stores:
            b = [z for z, v in bound(None, infos, st, first) if v]
            if not b:
                # kept without a test: cut afterwards?
                bad = bad or (n, 'a step is kept without being compared with %s' % first)
                continue
            m = max(b)
            if m != 0:
                bad = (n, 'the first step kept is %s%+d' % (first, m))
            else:
                verdict = n
        cuts = {c[0] for n, st in calls for a in (arguments(prog, n) or {}).values() for v in [ex.ev(a, st)] if v[0] == 'seq' for c in v[2]}
        if bad and any(first in c for c in cuts):
            slices(rep, prog, key, f, ex, calls, first, last)
        elif bad and first not in names:
            rep.bad('first-step', key, f.where(bad[0]), '%s is not used' % first)
        elif bad and (infos and any(first in z for z in infos.values()) or 'now' not in bad[1]):
            tested = any(z.get(first) for z in infos.values() if set(z) <= {first, ''})
            if tested:
                rep.bad('first-step', key, f.where(bad[0]), bad[1])
            else:
                rep.skip('first-step', key, bad[1])
        elif verdict is not None:
            rep.ok('first-step', '%s keeps a step when step >= %s' % (key, first))
    elif first:
        slices(rep, prog, key, f, ex, calls, first, last)
    # -- last step ------------------------------------------------------
    if last and stores:
        ends = []
        for kind, n, st, d in ex.events:
            if kind not in ('break', 'stop'):
                continue
            for z, v in bound(None, infos, st, last):
                if v:
                    kept = any(st.cons.get('now:#' + k) for k in lists)
                    ends.append((n, z - (0 if kept else 1)))
        if last not in names:
            rep.bad('last-step', key, f.where(), '%s is not used' % last)
        elif not ends:
            rep.skip('last-step', key, 'no test of the step against %s' % last)
        else:
            wrong = [(n, o) for n, o in ends if o != 0]
            if wrong:
                rep.bad('last-step', key, f.where(wrong[0][0]), 'the last step kept is %s%+d' % (last, wrong[0][1]))
            else:
                rep.ok('last-step', '%s ends after step %s' % (key, last))
                # a turn which keeps a step beyond the last
        over = [(n, st) for kind, n, st, d in ex.events if kind == 'turn' for z, v in bound(None, infos, st, last) if v and
                st.cons.get('none:' + last) is False]
        if over:
            rep.bad('last-step', key, f.where(over[0][0]), 'reading goes on after step %s' % last)
    # -- moving on ------------------------------------------------------
    seen = {}
    for kind, n, st, d in ex.events:
        if kind != 'turn':
            continue
        finds = [c for x in n.body for c in ast.walk(x) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'find' and
                 isinstance(c.func.value, ast.Name) and c.func.value.id in ex.handles and isinstance(n, ast.While) or False]
        if not finds or len(finds[0].args) != 1:
            continue
        ok = st.cons.get('now:!moved') is True
        seen.setdefault(id(n), [n, True, None])
        if not ok:
            seen[id(n)][1:] = [False, st]
    for n, ok, st in seen.values():
        if ok:
            rep.ok('moves-on', '%s: every turn of the loop reads past what it found' % key)
        else:
            rep.bad('moves-on', key, f.where(n), 'a turn of the loop ends where it began in the file: the same step is found again (%s)' % assumed(st))
    # -- last steps -----------------------------------------------------
    if 'last_steps' in ex.params:
        bad = None
        okn = 0
        for n, st in calls:
            a = arguments(prog, n)
            if a is None:
                continue
            no = st.cons.get('none:last_steps') is True or st.cons.get('true:last_steps') is False
            for k in FRAMES + ('time',):
                if k not in a:
                    continue
                v = ex.ev(a[k], st)
                if v[0] != 'seq':
                    if v != ('none',):
                        rep.skip('last-steps', '%s:%s' % (key, k), 'not followed')
                    continue
                cut = [c for c in v[2] if 'last_steps' in c[0] + c[1]]
                if no and cut:
                    continue
                if no:
                    okn += 1
                elif v[1].startswith(('n:', 'file')) and not cut:
                    rep.skip('last-steps', '%s:%s' % (key, k), 'length not followed: ' + v[1])
                elif cut != [('-1*last_steps', '', '')]:
                    bad = bad or (n, k, v, st)
                else:
                    okn += 1
        if bad:
            rep.bad('last-steps', '%s:%s' % (key, bad[1]), f.where(bad[0]), '%s holds %s when the last steps are requested (%s)' % (bad[1], show(bad[2]), assumed(bad[3])))
        elif okn:
            rep.ok('last-steps', '%s on %d arrays and paths' % (key, okn))
    # -- capacity -------------------------------------------------------
    if first and last:
        seenc = set()
        for kind, n, st, d in ex.events:
            if kind != 'map' or id(n) in seenc:
                continue
            seenc.add(id(n))
            sh = next((k.value for k in d[1].keywords if k.arg == 'shape'), None)
            if sh is None and len(d[1].args) > 4:
                sh = d[1].args[4]
            if isinstance(sh, ast.Name):
                ds = ex.defs.get(sh.id)
                sh = ds[0] if ds and len(ds) == 1 else None
            if not isinstance(sh, ast.Tuple) or not sh.elts:
                rep.skip('capacity', key, 'shape not followed')
                continue
            c = lin(sh.elts[0], ex.sub)
            if set(c) - {first, last, ''}:
                rep.skip('capacity', key, 'shape not followed')
                continue
            e = lsub(c, {last: 1, first: -1, '': 1})
            ce, ci, c0 = e.get(last, 0), e.get(first, 0), e.get('', 0)
            if ce >= 0 and ce + ci >= 0 and ce + ci + c0 >= 0:
                rep.ok('capacity', '%s %s = %s' % (key, d[0], ltext(c)))
            else:
                rep.bad('capacity', '%s:%s' % (key, d[0]), f.where(n), 'room for %s steps, %s-%s+1 are stored' % (ltext(c), last, first))
    # -- time step ------------------------------------------------------
    if 'time_step' in ex.params:
        said = says(f)
        if ex.over and not said:
            n, st = ex.over[0]
            rep.bad('time-step', key, f.where(n), 'the time step given is replaced without a word')
        else:
            rep.ok('time-step', '%s %s' % (key, 'says that its own is used' if ex.over else 'keeps the one given'))
        ps = set()
        for n, st in calls:
            a = arguments(prog, n) or {}
            if 'time' in a:
                p = ex.power(a['time'], st)
                if p == 0 and st.cons.get('none:time_step') is True:
                    p = None       # the default is used: a number
                ps.add((p, n))
        for p, n in sorted(ps, key=lambda x: str(x[0])):
            if p is None:
                rep.skip('time-step', key + ':time', 'formula not followed')
            elif p != 1:
                rep.bad('time-step', key + ':time', f.where(n), 'the time contains the time step to the power %d' % p)
            else:
                rep.ok('time-step', key + ' time is a number of steps multiplied by the time step')
    # -- template -------------------------------------------------------
    if 'template' in ex.params and stores:
        res = set()
        for n, st, d in stores:
            if st.cons.get('none:template') is True or st.cons.get('true:template') is False or d[-1] is None:
                continue
            if lists.get(d[0]) == 'energy':
                continue
            ops = ex.ops(d[-1], st)
            if ops is None or ('?',) in ops or '?' in ops:
                rep.skip('template', key, 'frame not followed')
                continue
            rows = tuple(o[1] for o in ops if o[0] == 'rows')
            res.add((rows, n))
        for rows, n in sorted(res, key=str):
            if rows == ('argsort(template)',):
                rep.ok('template', '%s: rows [argsort(template)] of each frame' % key)
            elif any('?' in x for x in rows):
                rep.skip('template', key, 'order not followed: %s' % (rows,))
            elif rows == ():
                if any('template' in c[0] for n2, st in calls for e in (arguments(prog, n2) or {}).values() for v in [ex.ev(e, st)] if v[0] == 'seq' for c in v[2]):
                    rep.skip('template', key, 'applied later')
                else:
                    rep.bad('template', key, f.where(n), 'a frame is stored without being ordered by the template')
            else:
                rep.bad('template', key, f.where(n), 'a frame is stored in the order %s' % ' '.join(rows))
    # -- same value -----------------------------------------------------
    kinds = {}
    for n, st, d in stores:
        kind = 'array' if ('map', d[0]) in st.flags else 'list'
        if d[-1] is None:
            continue
        tpl = st.cons.get('none:template')
        kinds.setdefault((d[0], tpl), {}).setdefault(kind, set()).add((ex.ops(d[-1], st), n))
    for (name, tpl), by in sorted(kinds.items(), key=str):
        if len(by) != 2:
            continue
        a, b = {x for x, _ in by['array']}, {x for x, _ in by['list']}
        if None in a | b or any('?' in o or ('?',) in o for o in a | b):
            rep.skip('same-value', '%s:%s' % (key, name), 'not followed')
        elif a != b:
            rep.bad('same-value', '%s:%s' % (key, name), f.where(next(iter(by['array']))[1]), 'the memory mapped array gets %s, the list %s' % (sorted(a), sorted(b)))
        else:
            rep.ok('same-value', '%s:%s' % (key, name))


def slices(rep, prog, key, f, ex, calls, first, last):
    bad = None
    n0 = 0
    for n, st in calls:
        a = arguments(prog, n) or {}
        for k in FRAMES + ('time',):
            if k not in a:
                continue
            v = ex.ev(a[k], st)
            if v == ('none',):
                continue
            if v[0] != 'seq':
                rep.skip('first-step', '%s:%s' % (key, k), 'not followed')
                continue
            nol = last is None or st.cons.get('none:' + last) is True
            want = [('-1+1*%s' % first, '' if nol else '1*%s' % last, '')]
            got = [c for c in v[2] if 'last_steps' not in c[0]]
            if any('[' in c[0] for c in got):
                rep.skip('first-step', '%s:%s' % (key, k), 'not followed')
                continue
            # several cuts, one after the other
            if len(got) == 2 and got[0][0] in ('', '0') and got[1][1] == '':
                got = [(got[1][0], got[0][1], '')]
            if got != want:
                bad = bad or (n, k, v, st)
            else:
                n0 += 1
    if bad:
        rep.bad('first-step', '%s:%s' % (key, bad[1]), f.where(bad[0]), '%s holds %s when %s' % (bad[1], show(bad[2]), assumed(bad[3])))
    elif n0:
        rep.ok('first-step', '%s cuts [%s-1:%s] on %d arrays and paths' % (key, first, last, n0))
        rep.ok('last-step', '%s cuts [%s-1:%s] on %d arrays and paths' % (key, first, last, n0))


def says(f):
    """something is printed when a time step is given"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.If):
            t = ast.unparse(n.test)
            if 'time_step' in t:
                none = any(isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.Is, ast.Eq)) and 'None' in ast.unparse(c.comparators[0]) for c in ast.walk(n.test))
                for x in (n.orelse if none != isinstance(n.test, ast.UnaryOp) else n.body):
                    for c in ast.walk(x):
                        if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] in ('print', 'warn', 'warning', 'write', 'info'):
                            return True
    return False
