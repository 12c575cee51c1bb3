"""C24: names, attributes, arguments and format fields exist."""
import ast

from ..model import Program
from ..names import Names, dotted, format_problem


def place(n, mod):
    p, out = n, []
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            out.append(p.name)
        p = getattr(p, '_parent', None)
    return mod.rel + ':' + ('.'.join(reversed(out)) or '<module>')


def run(rep):
    prog = Program(norm=False)
    nm = Names(prog)
    rep.rule('name', 'every name that is read is bound in an enclosing scope, the module or the builtins')
    rep.rule('unbound', 'no path reaches the use of a local variable before an assignment')
    rep.rule('import', 'every imported module and name exists in the package or the installed libraries')
    rep.rule('fallback', 'all arms of an import fallback bind the same names and at least one resolves')
    rep.rule('attribute', 'an attribute read on a value of known type or on a module exists')
    rep.rule('call', 'a call of a known function gives the parameters it has and requires')
    rep.rule('format', 'every field of a format string has an argument')
    rep.rule('kind', 'a parameter that is taken apart as a sequence is not given a dictionary')
    rep.rule('key', 'a key read from a dictionary built in the package is one that is stored')
    count = {}

    def did(rule):
        count[rule] = count.get(rule, 0) + 1

    for m in prog.all_modules():
        for n, ok in nm.undefined(m):
            if ok:
                did('name')
            else:
                rep.bad('name', '%s:%s' % (place(n, m), n.id), '%s:%d' % (m.rel, n.lineno), 'name %s is not defined' % n.id)
        arms_of = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try):
                arms = nm.try_arms(n)
                if arms and any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in n.body):
                    check_fallback(rep, nm, m, n, arms, did)
                    for a in arms:
                        for x in a:
                            for y in ast.walk(x):
                                arms_of[id(y)] = True
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.Attribute, ast.Call, ast.Subscript)) and nm.never(n, m):
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)) and id(n) not in arms_of:
                for a in n.names:
                    r = nm.import_ok(n, m, a)
                    if r is False:
                        rep.bad('import', '%s:%s' % (place(n, m), a.name), '%s:%d' % (m.rel, n.lineno),
                                '%s is not provided by %s' % (a.name, getattr(n, 'module', None) or a.name))
                    elif r:
                        did('import')
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                lacks, dec = nm.missing_attr(n, m)
                if lacks and not nm.guarded(n, ('AttributeError', 'Exception')):
                    rep.bad('attribute', '%s:%s.%s' % (place(n, m), lacks, n.attr), '%s:%d' % (m.rel, n.lineno),
                            '%s has no attribute %s' % (lacks, n.attr))
                elif dec:
                    did('attribute')
            if isinstance(n, ast.Call):
                p, dec = nm.signature_problem(n, m)
                if p and not nm.guarded(n, ('TypeError', 'Exception')):
                    rep.bad('call', '%s:%s' % (place(n, m), p.split(' ')[0] + ' ' + p.split(' ')[-1]),
                            '%s:%d' % (m.rel, n.lineno), p)
                elif dec:
                    did('call')
            if isinstance(n, ast.Call):
                p, dec = nm.kind_problem(n, m)
                if p and not nm.guarded(n, ('TypeError', 'ValueError', 'Exception')):
                    rep.bad('kind', '%s:%s' % (place(n, m), p.split(' ')[1]), '%s:%d' % (m.rel, n.lineno), p)
                elif dec:
                    did('kind')
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                p, dec = nm.key_problem(n, m)
                if p and not nm.guarded(n, ('KeyError', 'Exception')) and not tested(n):
                    rep.bad('key', '%s:%s' % (place(n, m), n.slice.value), '%s:%d' % (m.rel, n.lineno), p)
                elif dec:
                    did('key')
            p, dec = format_problem(n)
            if p:
                rep.bad('format', place(n, m), '%s:%d' % (m.rel, n.lineno), p)
            elif dec:
                did('format')
    for f in nm.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        seen = set()
        for n in nm.unbound(f):
            if n.id in seen or nm.guarded(n, ('NameError', 'UnboundLocalError', 'Exception')):
                continue
            seen.add(n.id)
            rep.bad('unbound', '%s:%s' % (f.qual, n.id), f.where(n),
                    'local variable %s of %s may be used before it is assigned' % (n.id, f.qual))
        did('unbound')
    rep.need(count.get('name', 0) > 100, 'the package sources are not found')
    for r, c in sorted(count.items()):
        rep.counts[r] = rep.counts.get(r, 0) + c
        rep.instances.append('%s: %d constructs decided without objection' % (r, c))
    rep.info['functions_analysed'] = len(nm.funcs)
    rep.info['modules'] = [m.rel for m in prog.all_modules()]
    rep.assumptions.append('installed versions in /opt/venv are the supported ones; lammps, not installed, is not resolved')


def tested(n):
    """inside `if key in d`"""
    p = n
    while p is not None:
        if isinstance(p, ast.If):
            for x in ast.walk(p.test):
                if isinstance(x, ast.Constant) and x.value == n.slice.value:
                    return True
        p = getattr(p, '_parent', None)
    return False


def check_fallback(rep, nm, m, n, arms, did):
    sets, res = [], []
    for a in arms:
        s, ok = set(), True
        for x in a:
            for y in ast.walk(x):
                if isinstance(y, (ast.Import, ast.ImportFrom)):
                    for al in y.names:
                        s.add(al.asname or al.name.split('.')[0])
                        if nm.import_ok(y, m, al) is False:
                            ok = False
                elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    s.add(y.id)
                elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                    s.add(y.name)
        from ..names import ends
        stops = any(ends(x) for x in a) or any(isinstance(x, ast.Raise) for b in a for x in ast.walk(b))
        sets.append((s, stops))
        res.append(ok)
    want = sets[0][0]
    key = '%s:%s' % (place(n, m), ','.join(sorted(want)))
    where = '%s:%d' % (m.rel, n.lineno)
    if not any(res):
        rep.bad('fallback', key, where, 'no arm of the fallback for %s resolves with the installed libraries' % ', '.join(sorted(want)))
        return
    inside = {id(y) for y in ast.walk(n)}
    used = {y.id for y in ast.walk(m.tree) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and id(y) not in inside}
    other = {y.id for y in ast.walk(m.tree) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and id(y) not in inside}
    need = set().union(*[s for s, _ in sets]) & used - other
    for s, stops in sets:
        if s and not stops and not need <= s:
            rep.bad('fallback', key, where, '%s is bound in one arm of the import fallback only' % ', '.join(sorted(need - s)))
            return
    did('fallback')
