"""C07: one time per stored frame, in every reader and after every cut."""
import ast
import itertools
import re

from ..model import Program
from ..readers import FRAMES, arguments, find
from ..seq import Exec, TooMany

STEPDATA = {'trajectory', 'velocity', 'vc', 'time'}


def show(v):
    if v[0] != 'seq':
        return str(v)
    cuts = ''.join('[%s:%s]' % (a, b) if not a.startswith('[') else a for a, b, c in v[2])
    return v[1] + cuts


def family(base):
    if base.startswith('map+'):
        base = base[4:]
    if base.startswith('loop'):
        return base.split(':')[0]
    return base


def compare(t, d, counters):
    """True equal, False different, None not comparable"""
    if t[0] != 'seq' or d[0] != 'seq':
        return None
    if t[1] == d[1]:
        if t[2] == d[2]:
            return True
        if any(x[0].startswith('[') for x in t[2] + d[2]):
            return None
        return False
    if family(t[1]) == family(d[1]) and t[1].startswith(('loop', 'map+')):
        return False
    for a, b in ((t, d), (d, t)):
        if a[1].startswith(b[1]) and re.fullmatch(r'[+-]\d+', a[1][len(b[1]):]) and a[2] == b[2]:
            return False
        if a[1].startswith('n:') and a[1][2:] in counters and b[1].startswith(('loop', 'map+')):
            return False
    return None


def run(rep):
    prog = Program()
    rep.need(prog.find_class('Dynamics') is not None, 'class Dynamics not found')
    rep.rule('time-per-frame', 'on every path to the construction of a trajectory object, the time and each per-step array hold the same steps (same source, same cuts)')
    rep.rule('stored-in-place', 'a frame written into a preallocated array goes to the index of its step')
    rep.rule('cut-together', 'a method that cuts a per-step array to some steps cuts all of them, and the time, to the same steps')
    w, readers = find(prog)
    rep.need(readers, 'no function builds a trajectory object')
    for r in readers:
        one(rep, prog, r)
    crops(rep, prog, w)
    rep.info['readers'] = [r.func.qual for r in readers]
    rep.assumptions.append('The datasets of one HDF5 file hold the same steps (C10); two different files read side by side are not compared.')


def one(rep, prog, r):
    f = r.func
    key0 = '%s:%s' % (f.mod.rel, f.qual.split(':')[1])
    if r.error:
        rep.skip('time-per-frame', key0, r.error)
        return
    counters = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            counters.add(n.target.id)
    seen = set()
    tuples = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            for e in n.value.elts:
                for x in ast.walk(e):
                    tuples[id(x)] = n.value
    for kind, call, st, _ in r.ex.events:
        if kind != 'call':
            continue
        a = arguments(prog, call)
        if a is None or 'time' not in a:
            continue
        t = r.ex.ev(a['time'], st)
        if t == ('none',):
            continue
        data = [(k, a[k]) for k in FRAMES if k in a]
        if id(call) in tuples:
            data += [(ast.unparse(e), e) for e in tuples[id(call)].elts if e is not call]
        for k, e in data:
            d = r.ex.ev(e, st)
            if d == ('none',):
                continue
            if k not in FRAMES and (d[0] != 'seq' or d[1] == 'file' and d[3] not in STEPDATA):
                continue
            key = '%s:%s' % (key0, k)
            doubt = any(fl[0] in ('doubt', 'unknown') for fl in st.flags)
            c = compare(t, d, counters)
            if c is None or doubt and c is False:
                if key not in seen:
                    seen.add(key)
                    rep.skip('time-per-frame', key, 'not followed: time %s, %s %s' % (show(t), k, show(d)))
            elif c:
                s = '%s time = %s = %s' % (key0, k, show(d))
                if s not in seen:
                    seen.add(s)
                    rep.ok('time-per-frame', s)
            else:
                rep.bad('time-per-frame', key, f.where(call), 'time holds %s and %s holds %s when %s' % (show(t), k, show(d), assumed(st)))
    shifted = {fl[1] for kind, n, st, _ in r.ex.events for fl in st.flags if fl[0] == 'shifted'}
    stores = {}
    for kind, node, st, info in r.ex.events:
        if kind == 'store' and not isinstance(info[1], ast.Slice):
            stores.setdefault((info[0], ast.unparse(info[1])), node)
    unknown = {fl[1] for kind, n, st, _ in r.ex.events for fl in st.flags if fl[0] == 'unknown'}
    for (name, idx), node in sorted(stores.items()):
        key = '%s:%s[%s]' % (key0, name, idx)
        if name in shifted:
            rep.bad('stored-in-place', key, f.where(node), 'the first step stored does not go to index 0 of %s, or not the n-th to n-1' % name)
        elif name in unknown:
            rep.skip('stored-in-place', key, 'index not followed')
        else:
            rep.ok('stored-in-place', key)


def assumed(st):
    c = ['%s%s' % ('' if v else 'not ', k.split(':', 1)[1] + (' is None' if k.startswith('none:') else '')) for k, v in sorted(st.cons.items())
         if len(k) < 60 and not k.startswith('now:')]
    return ', '.join(c)[:160] or 'always'


class CropExec(Exec):
    """time of a trajectory object asked for and set from outside"""

    def owner(self, call):
        return 'time@' + ast.unparse(call.func.value)

    def call(self, e, st):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get_time' and not e.args:
            return st.env.get(self.owner(e), ('seq', 'frames', (), 'time'))
        return Exec.call(self, e, st)

    def effect(self, call, st):
        if isinstance(call.func, ast.Attribute) and call.args and not (isinstance(call.func.value, ast.Name) and call.func.value.id == 'self'):
            if call.func.attr == 'set_time':
                st = st.copy()
                st.env[self.owner(call)] = self.ev(call.args[0], st)
                return [st]
            if call.func.attr == 'crop_trajectory':
                from ..seq import lin, ltext
                st = st.copy()
                v = st.env.get(self.owner(call), ('seq', 'frames', (), 'time'))
                n = lin(ast.UnaryOp(op=ast.USub(), operand=call.args[0]), self.sub)
                st.env[self.owner(call)] = ('seq', v[1], v[2] + ((ltext(n), '', ''),), v[3])
                return [st]
        return None


def selfslices(f):
    """attributes assigned from a part of themselves in the method (or anything sliced and stored to self)"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            out.add(n.attr)
    return out


def crops(rep, prog, w):
    dyn = prog.find_class('Dynamics')
    init = dyn.methods.get('__init__')
    rep.need(init is not None, 'Dynamics has no constructor')
    params = set(init.params())
    per = {}
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in params:
            for t in n.targets:
                if isinstance(t, ast.Attribute) and ast.unparse(t.value) == 'self' and (n.value.id in FRAMES or n.value.id == 'time'):
                    per[t.attr] = n.value.id
    rep.need(len(per) >= 3, 'the per-step data of Dynamics are not found')
    rep.need('crop_trajectory' in dyn.methods, 'Dynamics.crop_trajectory not found')
    for name, m in sorted(dyn.methods.items()):
        if name == '__init__':
            continue
        f = w.canon(m)
        if not any(isinstance(n, (ast.Slice,)) for n in ast.walk(f.node)) and name != 'crop_trajectory':
            continue
        if not (selfslices(f) & set(per)) and name != 'crop_trajectory':
            continue
        key0 = '%s:Dynamics.%s' % (f.mod.rel, name)
        attrs = sorted(per)
        opt = [a for a in attrs if per[a] != 'time']
        bad = {}
        n = 0
        failed = None
        for present in itertools.product((True, False), repeat=len(opt)):
            ex = CropExec(prog, f, w, ['self.' + a for a in per])
            env = {'self.' + a: ('seq', 'frames', (), per[a]) for a in attrs}
            for a, p in zip(opt, present):
                if not p:
                    env['self.' + a] = ('none',)
            try:
                ends = ex.run(env)
            except (TooMany, RecursionError):
                failed = 'too many paths'
                break
            for st, _ in ends:
                vals = {a: st.env.get('self.' + a) for a in attrs}
                vals = {a: v for a, v in vals.items() if v != ('none',)}
                if any(v is None or v[0] != 'seq' for v in vals.values()):
                    failed = 'value not followed: %s' % {a: v for a, v in vals.items() if v is None or v[0] != 'seq'}
                    continue
                n += 1
                ref = vals.get(next(a for a in attrs if per[a] == 'time'))
                for a, v in vals.items():
                    if ref is not None and (v[1], v[2]) != (ref[1], ref[2]):
                        bad.setdefault(a, (v, ref, st))
        for a, (v, ref, st) in sorted(bad.items()):
            rep.bad('cut-together', '%s:%s' % (key0, a), f.where(), 'self.%s becomes %s and the time %s' % (a, show(v), show(ref)))
        if not bad:
            if failed:
                rep.skip('cut-together', key0, failed)
            if n:
                rep.ok('cut-together', '%s on %d paths: %s' % (key0, n, ', '.join(attrs)))
    # calculation objects which hold per-step data of their own
    for m in prog.modules.values():
        for c in m.classes.values():
            if c is dyn or c.name == 'Dynamics':
                continue
            for name, meth in sorted(c.methods.items()):
                if name != 'crop_trajectory':
                    continue
                f = w.canon(meth)
                key0 = '%s:%s.%s' % (f.mod.rel, c.name, name)
                attrs = sorted(selfslices(f))
                # both as data present and as data absent
                ok, failed, bad = 0, None, None
                ex = CropExec(prog, f, w, ())
                start = {'self.' + a: ('seq', 'frames', (), a) for a in attrs if parts_of(f, a)}
                if not start:
                    rep.ok('cut-together', key0 + ' holds no per-step data of its own')
                    continue
                try:
                    ends = ex.run(dict(start))
                except (TooMany, RecursionError):
                    rep.skip('cut-together', key0, 'too many paths')
                    continue
                for st, _ in ends:
                    times = [v for k, v in st.env.items() if k.startswith('time@')] or [('seq', 'frames', (), 'time')]
                    for k in start:
                        v = st.env.get(k)
                        if v == ('none',):
                            ok += 1
                            continue
                        if v is None or v[0] != 'seq' or any(t[0] != 'seq' for t in times):
                            failed = 'value not followed'
                        elif any((t[1], t[2]) != (v[1], v[2]) for t in times):
                            bad = (k, v, times[0])
                        else:
                            ok += 1
                if bad:
                    rep.bad('cut-together', '%s:%s' % (key0, bad[0]), f.where(), '%s becomes %s and the time %s' % (bad[0], show(bad[1]), show(bad[2])))
                elif failed:
                    rep.skip('cut-together', key0, failed)
                else:
                    rep.ok('cut-together', '%s on %d paths' % (key0, ok))


def parts_of(f, attr):
    """the attribute is assigned a slice of something in the method"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(ast.unparse(t) == 'self.' + attr for t in n.targets):
            if any(isinstance(x, ast.Slice) for x in ast.walk(n.value)) or isinstance(n.value, ast.Call):
                return True
    return False
