"""C19: every per-atom supercell quantity uses the same atom order (inference of the space of every axis and index)."""
from ..model import Program
from .. import spaces, frames


def run(rep):
    prog = Program()
    rep.rule('order', 'what is expanded to a supercell lists all the images of the first atom, then of the second, ...')
    rep.rule('images', 'images of an atom are made with the first lattice direction the fastest')
    rep.rule('digits', 'the numbers of an image along the lattice directions are taken from its place with the first direction the fastest')
    rep.rule('index', 'an axis over atoms is indexed with indices of atoms of the same kind (unit cell, supercell, types, file)')
    rep.rule('combine', 'arrays that are combined or walked through together are over the same atoms')
    rep.rule('argument', 'what is given to a function is over the atoms the function takes')
    rep.rule('result', 'what a getter returns or keeps is over the documented atoms')
    rep.rule('reorder', 'atoms that are read are put in the order of the supercell, all the arrays alike')
    rep.rule('runs', 'numbers of atoms written in a POSCAR are those of consecutive atoms')
    an, n = spaces.analyse(prog)
    rep.info['functions_analysed_for_spaces'] = n
    for c, names in (('Structure', ('get_positions', 'get_masses', 'get_atomic_elements', 'get_atom_type_index')), ('Dynamics', ())):
        k = prog.find_class(c)
        rep.need(k is not None and all(x in k.methods for x in names), '%s or its getters are not found' % c)
    for r, items in sorted(an.decided.items()):
        for i in sorted(items):
            rep.ok(r, i)
    for r, fr, node, t in an.problems:
        rep.bad(r, '%s:%s' % (fr.name, frames.cut(node)), '%s:%d' % (fr.mod.rel, getattr(node, 'lineno', 0)), '%s: %s' % (t, frames.cut(node)))
    getters = {x.split(':')[1].split('.')[-1] for x in an.decided.get('order', ())}
    for x in spaces.EXPANDED:
        if x not in getters and not any(r == 'order' and fr.name.endswith('.' + x) for r, fr, _, _ in an.problems):
            rep.skip('order', x, 'the order of the atoms is not recognized')
    found = False
    for f, s, good, t in spaces.digits(prog):
        found = True
        if good is None:
            rep.skip('digits', f.qual, t)
        elif good:
            rep.ok('digits', f.qual)
        else:
            rep.bad('digits', '%s:%s' % (f.qual, t), '%s:%d' % (f.mod.rel, s.lineno), '%s: %s' % (f.qual, t))
    if not found:
        rep.skip('digits', 'order of the images', 'no function gives the numbers of an image from its place')
    for f, call, k, good in spaces.reordered(prog):
        w = '%s: %s of Dynamics' % (f.qual, k.arg)
        if good:
            rep.ok('reorder', w)
        else:
            rep.bad('reorder', w, '%s:%d' % (f.mod.rel, call.lineno), '%s of Dynamics does not depend on the order of the atoms that was found (%s)' % (k.arg, f.qual))
    rep.assumptions += ['documented shapes of the public interface: getters of Structure with a supercell are over its atoms, trajectories are '
                        '(step, atom, component), eigenvectors (mode, atom of the primitive cell, component)']
