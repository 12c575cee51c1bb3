"""C10: what the writers store is what the readers ask for: HDF5 datasets, YAML keys, files read side by side."""
import ast
import glob
import os

from ..model import Program
from ..names import dotted
from ..ext import site_dirs
from ..tags import Tags

PER_STEP = {'time', 'trajectory', 'velocity', 'vc'}
# parameter of Dynamics <- dataset;  dataset <- what the calculation stores in it
DYN = {'trajectory': 'trajectory', 'velocity': 'velocity', 'time': 'time', 'supercell': 'super_cell'}
STORE = {'time': {'get_time', 'time', '_time'}, 'super_cell': {'get_supercell_matrix', 'supercell', '_supercell_matrix'},
         'velocity': {'velocity', '_velocity'}, 'trajectory': {'trajectory', '_trajectory'},
         'vc': {'get_vc', '_vc'}, 'reduced_q_vector': {'get_reduced_q_vector', 'reduced_q_vector'}}


def scope(n):
    return Tags.scope(n)


def handles(body):
    """names bound to an open HDF5 file in a function"""
    out = {}
    for n in ast.walk(body):
        v, t = None, []
        if isinstance(n, ast.Assign):
            v, t = n.value, n.targets
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            v, t = n.context_expr, [n.optional_vars]
        if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] == 'File' and (dotted(v.func) or '').startswith(('h5py', 'File')):
            for x in t:
                if isinstance(x, ast.Name):
                    out[x.id] = v
    return out


def const_loop(n, body):
    """values of a name that loops over a literal tuple of strings"""
    p = n
    while p is not None:
        if isinstance(p, (ast.For,)) and isinstance(p.target, ast.Name) and p.target.id == n.id and isinstance(p.iter, (ast.Tuple, ast.List)):
            if all(isinstance(x, ast.Constant) for x in p.iter.elts):
                return [x.value for x in p.iter.elts]
        if isinstance(p, (ast.For,)) and isinstance(p.target, ast.Tuple) and isinstance(p.iter, (ast.Tuple, ast.List)):
            for i, x in enumerate(p.target.elts):
                if isinstance(x, ast.Name) and x.id == n.id:
                    try:
                        return [e.elts[i].value for e in p.iter.elts]
                    except (AttributeError, IndexError):
                        return None
        p = getattr(p, '_parent', None)
    return None


def keys_of(e, body):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return [e.value]
    if isinstance(e, ast.Name):
        return const_loop(e, body)
    return None


def guards(n, body):
    """keys whose presence is tested on the way to node n (positive), per handle"""
    out = set()
    c, p = n, n._parent

    def pos(t):
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            for v in t.values:
                yield from pos(v)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In):
            yield t

    def neg(t):
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
            for v in t.values:
                yield from neg(v)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            yield from pos(t.operand)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn):
            yield t
    while p is not None and c is not body:
        tests = []
        if isinstance(p, (ast.If, ast.While)) and any(c is x for x in p.body) or isinstance(p, ast.IfExp) and c is p.body:
            tests = list(pos(p.test))
        elif isinstance(p, ast.If) and any(c is x for x in p.orelse) or isinstance(p, ast.IfExp) and c is p.orelse:
            tests = list(neg(p.test))
        elif isinstance(p, ast.BoolOp) and isinstance(p.op, ast.And):
            for v in p.values:
                if v is c:
                    break
                tests += list(pos(v))
        for fld in ('body', 'orelse'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and any(c is x for x in b):
                for s in b:
                    if s is c:
                        break
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        tests += list(neg(s.test))
        for t in tests:
            for k in keys_of(t.left, body) or ():
                out.add(k)
        if isinstance(p, (ast.Try,)) and any(c is x for x in p.body):
            for h in p.handlers:
                names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {'KeyError'}
                if names & {'KeyError', 'Exception', 'LookupError'}:
                    out.add('*')
        c, p = p, getattr(p, '_parent', None)
    return out


def run(rep):
    prog = Program()
    rep.rule('required', 'a dataset read without a test is one every writer always stores')
    rep.rule('known', 'a dataset that is read, or tested for, is one a writer stores')
    rep.rule('preserved', 'a dataset that is written is read back by every loader')
    rep.rule('bound', 'each dataset holds, and is loaded into, the quantity of its name')
    rep.rule('joined', 'joining files joins every per-step dataset in the same way')
    rep.rule('yaml', 'keys and nesting asked of a YAML file are those its writer gives')
    rep.rule('record', 'the keys a file writer asks of a result are provided by it')
    rep.rule('ordered', 'data of files read side by side are put in the same order')
    rd, wr = [], []
    for f in list(prog.functions()):
        if isinstance(f.node, ast.Lambda):
            continue
        hs = handles(f.node)
        if hs:
            collect(f, hs, rd, wr)
    # files handled at the top level of a script
    for m in prog.scripts.values():
        hs = {k: v for k, v in handles(m.tree).items() if isinstance(scope(v), ast.Module)}
        if hs:
            class F:
                node, mod, name, qual = m.tree, m, '<module>', m.name + ':<module>'
            collect(F, hs, rd, wr)
    if not wr or not rd:
        rep.skip('known', 'HDF5', 'no reader or no writer is recognised')
    else:
        datasets(rep, prog, rd, wr)
        bindings(rep, prog, rd, wr)
        join(rep, prog)
    yaml_files(rep, prog)
    records(rep, prog)
    ordered(rep, prog)


def always(n, body):
    """is the node reached on every run of the body (no condition above it)?"""
    c, p = n, n._parent
    while p is not None and c is not body:
        if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test or isinstance(p, (ast.ExceptHandler,)):
            return False
        if isinstance(p, (ast.While,)) and c is not p.test:
            return False
        if isinstance(p, ast.For) and any(c is x for x in p.body):
            if not (isinstance(p.iter, (ast.Tuple, ast.List)) and p.iter.elts):
                return False
            for s in p.body:
                if s is c:
                    break
                if any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
                    return False
        for fld in ('body', 'orelse'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and any(c is x for x in b):
                for s in b:
                    if s is c:
                        break
                    if isinstance(s, ast.If) and any(isinstance(x, ast.Return) for x in ast.walk(s)):
                        return False
        c, p = p, getattr(p, '_parent', None)
    return True


def collect(f, hs, rd, wr):
    r, w, unknown = [], {}, False
    for n in ast.walk(f.node):
        if scope(n) is not f.node and not isinstance(scope(n), ast.Lambda):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in hs:
            if n.func.attr in ('create_dataset', 'require_dataset'):
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'name'), None)
                ks = keys_of(a, f.node) if a is not None else None
                data = next((k.value for k in n.keywords if k.arg == 'data'), n.args[3] if len(n.args) > 3 else None)
                if ks is None:
                    unknown = True
                for k in ks or ():
                    w.setdefault(k, []).append((n, always(n, f.node), data))
            elif n.func.attr == 'get' and n.args:
                for k in keys_of(n.args[0], f.node) or ():
                    r.append((k, n, True))
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in hs:
            ks = keys_of(n.slice, f.node)
            if ks is None:
                unknown = True
                continue
            g = guards(n, f.node)
            for k in ks:
                if isinstance(n.ctx, ast.Store):
                    p = n._parent
                    w.setdefault(k, []).append((n, always(n, f.node), p.value if isinstance(p, ast.Assign) else None))
                else:
                    r.append((k, n, k in g or '*' in g or (g and frozenset(g))))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.comparators[0], ast.Name) and n.comparators[0].id in hs:
            for k in keys_of(n.left, f.node) or ():
                r.append((k, n, None))
        elif isinstance(n, ast.Name) and n.id in hs and isinstance(n._parent, ast.Call) and n in n._parent.args and \
                dotted(n._parent.func) not in ('print', 'len'):
            unknown = True
    if r:
        rd.append((f, r, unknown))
    if w:
        wr.append((f, w, unknown))


def stored_from(w, ps):
    """dataset -> parameters of the writer it is stored from"""
    src = {}
    for k, sites in w.items():
        for n, alw, data in sites:
            if isinstance(data, ast.Call) and data.args:
                data = data.args[0]
            if isinstance(data, ast.Name) and data.id in ps:
                src.setdefault(k, set()).add(data.id)
    return src


def together(prog, f, w, gs, k):
    """does every call of the writer that stores one of the datasets gs store k as well?"""
    if not isinstance(f.node, ast.FunctionDef) or k not in w:
        return False
    ps = f.params()
    src = stored_from(w, ps)
    for g in gs:
        if g not in src or k not in src:
            continue
        ok = True
        for m in prog.all_modules():
            if m is not f.mod and (m.name.startswith('scripts') or f.mod.name.startswith('scripts')):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == f.name:
                    if any(isinstance(a, ast.Starred) for a in n.args) or any(x.arg is None for x in n.keywords):
                        continue
                    args = dict(zip(ps, n.args))
                    args.update({x.arg: x.value for x in n.keywords})
                    have = {p for p, v in args.items() if not (isinstance(v, ast.Constant) and v.value is None)}
                    if src[g] & have and not src[k] & have:
                        ok = False
        if ok:
            return True
    return False


def datasets(rep, prog, rd, wr):
    allw = set()
    vague = any(u for _, _, u in wr)
    for f, w, u in wr:
        allw |= set(w)
    for f, r, u in rd:
        read = set()
        for k, n, guarded in r:
            where = '%s:%d' % (f.mod.rel, n.lineno)
            if guarded is not None:
                read.add(k)
            if k not in allw:
                if vague:
                    rep.skip('known', where, k)
                else:
                    rep.bad('known', '%s:%s' % (f.qual, k), where, 'the dataset %s is not one any writer stores (%s)' % (k, ', '.join(sorted(allw))))
                continue
            rep.ok('known', '%s reads %s' % (f.qual, k))
            if not isinstance(guarded, (bool, type(None))) and all(together(prog, f, w, guarded, k) for f, w, _ in wr):
                guarded = True
            if guarded is not None and guarded is not True:
                for g, w, gu in wr:
                    if not any(a for _, a, _ in w.get(k, ())):
                        if gu:
                            rep.skip('required', where, k)
                        else:
                            rep.bad('required', '%s:%s' % (f.qual, k), where, 'the dataset %s is read without a test, and %s does not always store it' % (k, g.name))
                    else:
                        rep.ok('required', '%s: %s, always stored by %s' % (f.qual, k, g.qual))
        for k in sorted(allw):
            if k in read:
                rep.ok('preserved', '%s is loaded by %s' % (k, f.qual))
            elif u:
                rep.skip('preserved', f.mod.rel, k)
            else:
                rep.bad('preserved', '%s:%s' % (f.qual, k), '%s:%d' % (f.mod.rel, getattr(f.node, 'lineno', 1)), 'the dataset %s is written but not loaded by %s' % (k, f.name))


def seed_h5(e):
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) and isinstance(e.value, ast.Name):
        return [e.slice.value]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and e.args and isinstance(e.args[0], ast.Constant):
        return [e.args[0].value]
    return None


def follower(mod):
    def follow(c):
        if isinstance(c.func, ast.Name) and c.func.id in mod.funcs:
            return mod.funcs[c.func.id].node
        return None
    return follow


def bindings(rep, prog, rd, wr):
    # loader: Dynamics(parameter=value from the dataset)
    for f, r, u in rd:
        if not isinstance(f.node, ast.FunctionDef):
            continue
        t = Tags(f.mod.tree, seed_h5, follower(f.mod))
        D = prog.find_class('Dynamics')
        ps = D.methods['__init__'].params()[1:] if D and '__init__' in D.methods else []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'Dynamics':
                for p, v in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                    if p in DYN:
                        got = t.of(v)
                        where = '%s:%d' % (f.mod.rel, v.lineno)
                        if not got:
                            rep.skip('bound', where, '%s: %s' % (f.qual, p))
                        elif DYN[p] in got:
                            rep.ok('bound', '%s: %s <- %s' % (f.qual, p, DYN[p]))
                        else:
                            rep.bad('bound', '%s:%s' % (f.qual, p), where, '%s is loaded from the dataset %s' % (p, ', '.join(sorted(got))))
    # writer: dataset <- parameter <- what the callers pass
    for f, w, u in wr:
        if not isinstance(f.node, ast.FunctionDef):
            continue
        ps = f.params()
        src = stored_from(w, ps)
        names = {}
        for k, v in src.items():
            for p in v:
                names.setdefault(p, set()).add(k)
        for p, ks in sorted(names.items()):
            if len(ks) > 1:
                rep.bad('bound', '%s:%s' % (f.qual, p), f.where(), 'the datasets %s are all given %s' % (' and '.join(sorted(ks)), p))
        for m in prog.all_modules():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call):
                    continue
                d = dotted(n.func) or ''
                if d.split('.')[-1] != f.name:
                    continue
                if f.mod is not m and m.name.startswith('scripts'):
                    continue
                args = dict(zip(ps, n.args))
                args.update({k.arg: k.value for k in n.keywords if k.arg})
                sc = scope(n)
                for k, v in sorted(src.items()):
                    for p in v:
                        if p not in args:
                            continue
                        if m.name.startswith('scripts'):
                            t = Tags(m.tree, seed_h5, follower(m))
                            got = t.of(args[p])
                            where = '%s:%d' % (m.rel, args[p].lineno)
                            if not got:
                                rep.skip('bound', where, '%s <- %s' % (k, p))
                            elif k in got:
                                rep.ok('bound', '%s: %s stored from %s' % (m.rel, k, k))
                            else:
                                rep.bad('bound', '%s:%s' % (f.qual, k), where, 'the dataset %s is given %s' % (k, ', '.join(sorted(got))))
                            continue
                        got = quantities(args[p], sc, 0)
                        want = STORE.get(k)
                        where = '%s:%d' % (m.rel, args[p].lineno)
                        if want is None or not got:
                            rep.skip('bound', where, '%s <- %s' % (k, p))
                        elif got & want:
                            rep.ok('bound', '%s stores %s' % (k, ', '.join(sorted(got & want))))
                        elif any(got & x for q, x in STORE.items() if q != k):
                            rep.bad('bound', '%s:%s' % (f.qual, k), where, 'the dataset %s is given %s' % (k, ', '.join(sorted(got))))
                        else:
                            rep.skip('bound', where, '%s <- %s' % (k, p))


def quantities(e, sc, depth):
    """names of the getters and attributes an expression reads"""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Name) and depth < 3 and sc is not None:
            for x in ast.walk(sc):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets):
                    out |= quantities(x.value, sc, depth + 1)
    return out


def join(rep, prog):
    m = prog.scripts.get('concath5')
    if m is None:
        rep.skip('joined', 'scripts/concath5', 'no such script')
        return
    t = Tags(m.tree, seed_h5, follower(m))
    cats, cut, cut0 = {}, {}, {}
    vague = False
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call):
            continue
        d = (dotted(n.func) or '').split('.')[-1]
        if d in ('concatenate', 'append', 'vstack', 'hstack') and (dotted(n.func) or '').startswith(('np.', 'numpy.')):
            parts = n.args[0].elts if n.args and isinstance(n.args[0], (ast.Tuple, ast.List)) else (n.args[:2] if d == 'append' else None)
            if not parts or len(parts) < 2:
                vague = True
                continue
            tg = [t.of(p) for p in parts]
            where = '%s:%d' % (m.rel, n.lineno)
            keys = [x & PER_STEP for x in tg]
            if any(not k for k in keys):
                vague = True
                continue
            if any(len(k) != 1 for k in keys):
                if len(set(map(frozenset, keys))) > 1 and not set.intersection(*map(set, keys)):
                    rep.bad('joined', 'concath5:%s' % '/'.join(sorted(set().union(*keys))), where, 'different datasets are joined: %s' % ' and '.join('+'.join(sorted(k)) for k in keys))
                else:
                    vague = True
                continue
            if keys[0] != keys[1]:
                rep.bad('joined', 'concath5:%s' % '/'.join(sorted(keys[0] | keys[1])), where,
                        '%s is joined with %s' % (min(keys[0]), min(keys[1])))
                continue
            k = min(keys[0])
            inloop = False
            p = n
            while p is not None:
                inloop |= isinstance(p, (ast.For, ast.While))
                p = getattr(p, '_parent', None)
            cats.setdefault(k, []).append((n, parts[1]))
            ax = next((kw.value for kw in n.keywords if kw.arg == 'axis'), n.args[1] if d == 'concatenate' and len(n.args) > 1 else None)
            if isinstance(ax, ast.Constant) and ax.value not in (0,):
                rep.bad('joined', 'concath5:axis:%s' % k, where, '%s is joined along axis %s, not along the steps' % (k, ax.value))
            cut.setdefault(k, set()).add(skip_of(parts[1], m.tree))
            cut0.setdefault(k, set()).add(skip_of(parts[0], m.tree))
    written = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'create_dataset' and n.args and isinstance(n.args[0], ast.Constant):
            written.add(n.args[0].value)
    if not cats:
        rep.skip('joined', m.rel, 'no concatenation is recognised')
        return
    for k in sorted(written & PER_STEP):
        if k in cats:
            rep.ok('joined', 'concath5 joins %s' % k)
        elif vague:
            rep.skip('joined', m.rel, k)
        else:
            rep.bad('joined', 'concath5:%s' % k, '%s:1' % m.rel, 'the dataset %s of the joined file comes from the first file only' % k)
    for which, cc in (('first file', cut0), ('following files', cut)):
        cs = {k: min(v) for k, v in cc.items() if len(v) == 1 and None not in v}
        vals = set(cs.values())
        if len(vals) > 1:
            for k, v in sorted(cs.items()):
                n0 = sum(1 for x in cs.values() if x == v)
                if n0 * 2 <= len(cs):
                    rep.bad('joined', 'concath5:skip:%s' % k, '%s:%d' % (m.rel, cats[k][0][0].lineno),
                            'the steps of the %s kept in %s (%s) are not those kept in the other datasets' % (which, k, v or 'all'))
        elif cs:
            rep.ok('joined', 'the same steps of the %s are kept in %s' % (which, ', '.join(sorted(cs))))


def skip_of(e, tree, depth=0):
    """the slice applied to a piece before it is joined, as text ('' for none)"""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        return ast.unparse(e.slice)
    if isinstance(e, ast.Name) and depth < 4:
        vs = [n.value for n in ast.walk(tree) if isinstance(n, ast.Assign) and scope(n) is scope(e) and
              any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        res = {skip_of(v, tree, depth + 1) for v in vs if not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v)) or isinstance(v, ast.Subscript)}
        res -= {None}
        res2 = {r for r in res if r}
        if len(res2) == 1:
            return res2.pop()
        if not res2:
            return ''
        return None
    if isinstance(e, ast.Call):
        return ''
    return None


# -- YAML ---------------------------------------------------------------------

def yaml_writers(prog):
    """{function name: (kind, item keys, nested)} of functions that dump a container they build"""
    out = {}
    for m in prog.modules.values():
        for f in m.funcs.values():
            dumps = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and dotted(n.func) in ('yaml.dump', 'yaml.safe_dump', 'dump', 'safe_dump') and n.args]
            for d in dumps:
                if not isinstance(d.args[0], ast.Name):
                    continue
                v = d.args[0].id
                kind, keys, ok = None, {}, True
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in n.targets):
                        if isinstance(n.value, (ast.List, ast.ListComp)):
                            kind = 'list'
                            if isinstance(n.value, ast.ListComp):
                                item_keys(n.value.elt, f, keys, n)
                        elif isinstance(n.value, (ast.Dict, ast.DictComp)):
                            kind = 'dict'
                        else:
                            ok = False
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == v:
                        if n.func.attr == 'append' and n.args:
                            item_keys(n.args[0], f, keys, n)
                        elif n.func.attr == 'update':
                            kind = 'dict'
                if kind and ok:
                    out[f.name] = (kind, keys, f)
    return out


def item_keys(e, f, keys, at):
    """keys of the dictionaries appended to the output, with whether they are always present"""
    if isinstance(e, ast.Dict):
        for k in e.keys:
            if isinstance(k, ast.Constant):
                keys[k.value] = True
        return
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id == 'dict':
            for k in e.keywords:
                keys[k.arg] = True
            return
        g = f.mod.funcs.get(e.func.id)
        if g:
            for r in ast.walk(g.node):
                if isinstance(r, ast.Return) and r.value is not None:
                    item_keys(r.value, g, keys, r)
        return
    if isinstance(e, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        if not isinstance(n.value, ast.Name):
                            item_keys(n.value, f, keys, n)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant):
                        keys[t.slice.value] = keys.get(t.slice.value, False) or plain(n, f.node)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                sub = {}
                if n.args:
                    item_keys(n.args[0], f, sub, n)
                for k in n.keywords:
                    if k.arg:
                        sub[k.arg] = True
                for k in sub:
                    keys[k] = keys.get(k, False) or plain(n, f.node)


def plain(n, body):
    c, p = n, n._parent
    while p is not None and c is not body:
        if isinstance(p, (ast.If, ast.ExceptHandler)):
            return False
        c, p = p, getattr(p, '_parent', None)
    return True


def yaml_files(rep, prog):
    ws = yaml_writers(prog)
    m = prog.scripts.get('rfc_calc')
    w = ws.get('save_quasiparticle_data_to_file')
    if m is not None:
        reader(rep, m, 'rfc_calc', w and (w[0], w[1], w[2].name))
    m = prog.scripts.get('qha_extract')
    if m is not None:
        ks = phonopy_keys()
        reader(rep, m, 'qha_extract', ks and ('dict', ks, 'phonopy'))


def phonopy_keys():
    """keys in the thermal properties file of the installed phonopy"""
    out = {}
    for d in site_dirs():
        for p in glob.glob(os.path.join(d, 'phonopy', 'phonon', 'thermal_properties.py')):
            with open(p) as fh:
                tree = ast.parse(fh.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    for part in n.value.replace('-', ' ').split():
                        if part.endswith(':'):
                            out[part[:-1]] = True
    return out or None


def reader(rep, m, name, w):
    loads = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('safe_load', 'load', 'full_load')
             and (dotted(n.func) or '').startswith('yaml')]
    if not loads:
        return
    if w is None:
        rep.skip('yaml', m.rel, 'the writer is not recognised')
        return
    kind, keys, wname = w

    # names that hold the loaded document ('doc') and its items ('item')
    def seed(e):
        if isinstance(e, ast.Call) and e in loads:
            return ['doc']
        return None
    level = {}
    changed = True

    def lev(e):
        """0: the document, 1: an item of it, 2: deeper"""
        if isinstance(e, ast.Call) and e in loads:
            return 0
        if isinstance(e, ast.Call) and dotted(e.func) in ('dict', 'list', 'sorted', 'enumerate', 'reversed') and e.args:
            return lev(e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('values', 'items'):
            return lev(e.func.value)
        if isinstance(e, ast.Name):
            return level.get((id(scope(e)), e.id))
        if isinstance(e, ast.Subscript):
            b = lev(e.value)
            return None if b is None else b + 1
        return None
    while changed:
        changed = False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = lev(n.value)
                        k = (id(scope(t)), t.id)
                        if v is not None and level.get(k) != v and k not in level:
                            level[k] = v
                            changed = True
            elif isinstance(n, (ast.For, ast.comprehension)):
                v = lev(n.iter)
                if v is not None:
                    tg = n.target
                    if isinstance(tg, ast.Tuple) and tg.elts:
                        tg = tg.elts[-1]
                    if isinstance(tg, ast.Name):
                        k = (id(scope(tg)), tg.id)
                        if k not in level:
                            level[k] = v + 1
                            changed = True
    for n in ast.walk(m.tree):
        where = '%s:%d' % (m.rel, getattr(n, 'lineno', 0))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            v = lev(n.value)
            if v is None:
                continue
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                k = n.slice.value
                if kind == 'list' and v == 0:
                    rep.bad('yaml', '%s:%s' % (name, k), where, 'the file written by %s is a list; it is read as a mapping (%s)' % (wname, k))
                elif k not in keys:
                    rep.bad('yaml', '%s:%s' % (name, k), where, 'the key %s is not one that %s writes (%s)' % (k, wname, ', '.join(sorted(keys))[:200]))
                elif not keys[k] and k not in guards(n, m.tree):
                    rep.bad('yaml', '%s:%s' % (name, k), where, 'the key %s is written only sometimes and is read without a test' % k)
                else:
                    rep.ok('yaml', '%s reads %s' % (name, k))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('items', 'keys', 'values') and lev(n.func.value) == 0:
            if kind == 'list':
                rep.bad('yaml', '%s:%s' % (name, n.func.attr), where, 'the file written by %s is a list; it is read as a mapping' % wname)


# -- results handed to the file writers -----------------------------------------

def produced(f, depth=0):
    """{key: always?} of the dictionaries a method returns"""
    out = {}
    rs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None and scope(n) is f.node]
    for r in rs:
        got = {}
        item_keys2(r, f, got, depth)
        if not got:
            return None
        for k, a in got.items():
            out[k] = out.get(k, True) and a
    return out or None


def item_keys2(e, f, out, depth):
    if isinstance(e, ast.Dict):
        for k in e.keys:
            if isinstance(k, ast.Constant):
                out[k.value] = True
        return
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ''
        if d == 'dict':
            for a in e.args:
                item_keys2(a, f, out, depth)
            for k in e.keywords:
                if k.arg:
                    out[k.arg] = True
            return
        if d.endswith('.copy') and isinstance(e.func, ast.Attribute):
            item_keys2(e.func.value, f, out, depth)
            return
        if d.startswith('self.') and d.count('.') == 1 and f.cls is not None and depth < 4:
            g = f.cls.methods.get(d[5:])
            if g:
                out.update(produced(g, depth + 1) or {})
        return
    if isinstance(e, ast.Subscript):
        item_keys2(e.value, f, out, depth)
        return
    if isinstance(e, (ast.Name, ast.Attribute)):
        d = dotted(e)
        fs = [f] if isinstance(e, ast.Name) else list(f.cls.methods.values()) if f.cls else [f]
        for g in fs:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        td = dotted(t)
                        if td == d and n.value is not e and depth < 4 and not (isinstance(n.value, ast.Constant)):
                            item_keys2(n.value, g, out, depth + 1)
                        elif isinstance(t, ast.Subscript) and dotted(t.value) == d and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                            out.setdefault(t.slice.value, plain(n, g.node))
                        elif isinstance(t, ast.Subscript) and dotted(t.value) == d and depth < 4:
                            item_keys2(n.value, g, out, depth + 1)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and dotted(n.func.value) == d and n.args:
                    sub = {}
                    item_keys2(n.args[0], g, sub, depth + 1)
                    for k in sub:
                        out.setdefault(k, plain(n, g.node))


def records(rep, prog):
    Q = prog.find_class('Quasiparticle')
    if Q is None:
        return
    for m in prog.modules.values():
        for w in m.funcs.values():
            if not any(isinstance(n, ast.Call) and (dotted(n.func) or '') in ('yaml.dump', 'yaml.safe_dump') for n in ast.walk(w.node)):
                continue
            ps = w.params()
            asked = {}
            for n in ast.walk(w.node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in ps and isinstance(n.slice, ast.Constant) and \
                        isinstance(n.slice.value, str) and isinstance(n.ctx, ast.Load):
                    asked.setdefault(n.value.id, []).append((n.slice.value, n, n.slice.value in guards(n, w.node)))
            if not asked:
                continue
            for f in Q.methods.values():
                for c in ast.walk(f.node):
                    if isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] == w.name:
                        args = dict(zip(ps, c.args))
                        args.update({k.arg: k.value for k in c.keywords if k.arg})
                        for p, lst in asked.items():
                            if p not in args:
                                continue
                            got = {}
                            item_keys2(args[p], f, got, 0)
                            if not got:
                                rep.skip('record', f.where(c), w.name)
                                continue
                            for k, n, guarded in lst:
                                where = w.where(n)
                                if guarded:
                                    rep.ok('record', '%s asks for %s when it is there' % (w.name, k))
                                elif k not in got:
                                    rep.bad('record', '%s:%s' % (w.qual, k), where, '%s asks for %s, which %s does not provide (%s)' % (w.name, k, f.name, ', '.join(sorted(got))))
                                elif not got[k]:
                                    rep.bad('record', '%s:%s' % (w.qual, k), where, '%s asks for %s, which %s does not always provide' % (w.name, k, f.name))
                                else:
                                    rep.ok('record', '%s: %s is provided by %s' % (w.name, k, f.name))


# -- order of files read side by side ---------------------------------------------

def ordered(rep, prog):
    m = prog.scripts.get('qha_extract')
    if m is None:
        return

    def seed(e):
        if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('argsort', 'lexsort'):
            return ['#index']
        if isinstance(e, ast.Subscript):
            return None
        return None

    class T(Tags):
        def of(self, e, depth=0):
            if isinstance(e, ast.Subscript):
                idx = set()
                for x in ast.walk(e.slice):
                    if isinstance(x, (ast.Name, ast.Call)):
                        idx |= Tags.of(self, x, depth + 1)
                base = self.of(e.value, depth + 1)
                if '#index' in idx:
                    return (base - {'#index'}) | {'#sorted'}
                return base
            if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] in ('take',) and any('#index' in Tags.of(self, a, depth + 1) for a in e.args):
                return {'#sorted'}
            return Tags.of(self, e, depth)
    t = T(m.tree, seed, follower(m))
    n_calls = 0
    PAIRED = {'PhonopyQHA': ((0, 'volumes'), [(1, 'electronic_energies'), (None, 'free_energy'), (None, 'cv'), (None, 'entropy')]),
              'interp1d': ((0, 'x'), [(1, 'y')])}
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call):
            continue
        name = (dotted(n.func) or '').split('.')[-1]
        if name not in PAIRED:
            continue

        def arg(spec):
            i, k = spec
            for kw in n.keywords:
                if kw.arg == k:
                    return kw.value
            return n.args[i] if i is not None and i < len(n.args) else None
        a = arg(PAIRED[name][0])
        if a is None or '#sorted' not in t.of(a):
            continue
        n_calls += 1
        for sp in PAIRED[name][1]:
            b = arg(sp)
            if b is None:
                continue
            where = '%s:%d' % (m.rel, b.lineno)
            if '#sorted' in t.of(b):
                rep.ok('ordered', '%s: %s is in the order of the volumes' % (name, sp[1]))
            else:
                rep.bad('ordered', 'qha_extract:%s.%s' % (name, sp[1]), where, 'the volumes are sorted and %s of %s is not put in their order' % (sp[1], name))
    if not n_calls:
        rep.skip('ordered', m.rel, 'no sorted volumes are used')
