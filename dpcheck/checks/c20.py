"""C20: coordinates are never mixed between lattice, Cartesian and reciprocal frames (inference of the basis of every axis)."""
from ..model import Program
from .. import frames, cframes


def run(rep):
    prog = Program()
    rep.rule('product', 'a contraction pairs Cartesian components with Cartesian ones, or components with the basis vectors of the same lattice')
    rep.rule('sum', 'arrays that are added, subtracted, compared or stored into one another have the same bases')
    rep.rule('result', 'what a getter returns or keeps is in the documented basis (wave vectors in Cartesian coordinates include 2 pi)')
    rep.rule('argument', 'what is given to a function is in the basis the function takes')
    rep.rule('round', 'only components along lattice vectors are rounded to whole numbers')
    rep.rule('scale', 'the cell and the Cartesian positions of a structure are scaled alike')
    an, n = frames.analyse(prog)
    rep.info['functions_analysed_for_frames'] = n
    for c, name in (('Structure', 'get_cell'), ('Structure', 'get_positions'), ('Dynamics', 'get_supercell')):
        k = prog.find_class(c)
        rep.need(k is not None and name in k.methods, '%s.%s is not found' % (c, name))
    for r, items in sorted(an.decided.items()):
        for i in sorted(items):
            rep.ok(r, i)
    for r, fr, node, t in an.problems:
        rep.bad(r, '%s:%s' % (fr.name, frames.cut(node)), '%s:%d' % (fr.mod.rel, getattr(node, 'lineno', 0)), '%s: %s' % (t, frames.cut(node)))
    found = False
    for cf, f, A in cframes.analyse():
        if A is None:
            rep.skip('product', cf.rel, 'clang does not parse it')
            continue
        found = True
        for r, items in sorted(A.decided.items()):
            for i in sorted(items):
                rep.ok(r, i)
        for r, c, fn, node, t in A.problems:
            rep.bad(r, '%s:%s:%s' % (c.rel, fn.name, t), '%s:%s' % (c.rel, node.line), '%s %s' % (fn.name, t))
    if not found:
        rep.skip('product', 'C kernel of the displacements', 'no extension function takes a cell')
    rep.assumptions += ['documented bases of the public interface: cells and primitive cells have lattice vectors as rows, primitive '
                        'matrices as columns; reduced wave vectors refer to the primitive cell; trajectories and eigenvectors are Cartesian',
                        'phonopy: reciprocal_operations are the transposes of the real space ones']
