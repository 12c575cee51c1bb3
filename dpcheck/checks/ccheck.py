"""Abstract execution of the extension modules, once, for the checks on the C kernels."""
from ..csrc import c_files
from ..cmach import Machine, TooMany, extension_functions


def analyse(rep):
    """[(event, kind, node, key, text)]; event is 'bad', 'unsure' or 'ok'"""
    cfs = c_files()
    rep.need(cfs, 'no C sources')
    out, funcs = [], []
    for cf in cfs:
        rep.need(cf.ok, '%s: %s' % (cf.rel, cf.error))
        roots = extension_functions(cf)
        rep.need(roots, '%s has no function that Python can call' % cf.rel)

        def sink(kind, node, key, txt, cf=cf):
            out.append(('bad', kind, node, key, txt, cf))

        def unsure(kind, node, txt, cf=cf):
            out.append(('unsure', kind, node, txt, txt, cf))

        def done(kind, node, txt, cf=cf):
            out.append(('ok', kind, node, txt, txt, cf))
        m = Machine(cf, sink, unsure, done)
        for f, flags in roots:
            funcs.append('%s:%s' % (cf.rel, f.name))
            if flags is not None:
                v = m.ev(flags, __import__('dpcheck.cmach', fromlist=['State']).State())[0][1]
                try:
                    c = int(v.const())
                except (AttributeError, TypeError):
                    c = None
                n = len(cf.params(f))
                if c is not None and ((n == 3) != bool(c & 2)):
                    sink('arguments', f, '%s:%s:flags' % (cf.rel, f.name), 'a function of %d arguments is registered with flags %d' % (n, c))
            try:
                m.run_root(f)
            except TooMany:
                unsure('paths', f, '%s:%s: too many paths' % (cf.rel, f.name))
        for name in sorted(m.recursive):
            if any(name in m.reach(f, set()) for f, _ in roots):
                funcs.append('%s:%s' % (cf.rel, name))
                try:
                    m.stack = []
                    m.run_recursive(cf.funcs[name])
                except TooMany:
                    unsure('paths', cf.funcs[name], '%s:%s: too many paths' % (cf.rel, name))
    return out, funcs


ALWAYS = ('paths', 'call')


def verdict(rep, rules):
    for k, t in rules.items():
        rep.rule(k, t)
    events, funcs = analyse(rep)
    rep.info['functions'] = funcs
    for what, kind, node, key, txt, cf in events:
        if kind not in rules and kind not in ALWAYS:
            continue
        if what == 'ok':
            rep.ok(kind, '%s (line %s)' % (txt, node.line))
        elif what == 'bad':
            rep.bad(kind, key, '%s:%s' % (cf.rel, node.line), txt)
        else:
            rep.skip(kind, txt, 'not decided')
    rep.assumptions += ['sizes fit in int (the kernels keep them in int variables)',
                        'conditions on floating values may go either way at any time',
                        'numpy functions keep their documented contracts (PyArray_FROM_OTF, PyArray_SimpleNew, PyArray_Return)']
