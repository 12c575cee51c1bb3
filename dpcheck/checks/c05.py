"""C05: a request leaves the wave vector, the silent flag and every other setting as it found them."""
from ..engine import EMPTY, Limit
from ..model import Program
from ..stale import Hooks, World

REQ = ('get_', 'plot_', 'write_', 'save_', 'show_', 'display_', 'print_', 'phonon_', 'check_', 'algorithms', 'unit')
PSEUDO = ('C05', 'entry')


class Restore(Hooks):
    def __init__(self, w, bases):
        Hooks.__init__(self, w)
        self.b = tuple(sorted(bases))
        self.sites = {}

    def tracked(self):
        return (PSEUDO,)

    def bases(self, m):
        return self.b if m == PSEUDO else ()

    def key(self, st):
        return self.changed(self.engine, st)

    def changed(self, engine, st):
        return frozenset(b for b in self.b
                         if not engine.agree(st, b, engine.snap_tok(st, PSEUDO, b), engine.cur_tok(st, b)))

    def on_write(self, engine, st, loc, old, new, node, fn):
        if loc not in self.b:
            return
        self.sites.setdefault(loc, fn.where(node))
        filling = new.tok != old.tok and any(loc in g for g in engine.guards)
        same = [m for m in st.marks if m[0] == 'same' and m[1] == loc]
        if same and new.tok != old.tok and not filling:
            st.marks = st.marks - frozenset(same)
        if filling:
            st.marks = st.marks | frozenset([('same', loc, old.tok)])


def settings(w):
    return {l for l in w.attrs if l[0] == 'PAR' and l not in w.memos and l not in w.types}


def exempt(loc):
    return 'frequency_range' in loc[1] or 'band_ranges' in loc[1] or loc[1].strip('_') == 'frequency'


def run(rep):
    w = World(Program(norm='light'))
    rep.rule('restored', 'a request that changes a setting has put it back on every path to its return')
    rep.assumptions.append('a request that ends in an exception is not covered; numpy array_equal means equal')
    names = {l[1].strip('_'): l for l in w.attrs if l[0] == 'PAR'}
    rep.need('reduced_q_vector' in names, 'the wave vector setting is not found in Parameters')
    jobs = [f for f in w.public_methods('SELF') if f.name.startswith(REQ)]
    touched = 0
    for f in jobs:
        wr = {l for l in w.writes_of.get(('SELF', f.qual), ()) if l in settings(w) and not exempt(l)}
        if not wr:
            rep.ok('restored', '%s writes no setting' % f.qual)
            continue
        touched += 1
        h = Restore(w, wr)
        e = w.engine(h, h.key)
        h.engine = e
        try:
            r = w.run(e, 'SELF', f)
        except Limit:
            rep.skip('restored', f.qual, 'analysis budget exhausted')
            continue
        bad = set()
        for st, v in r:
            bad |= h.changed(e, st)
        for b in sorted(wr):
            if b in bad:
                rep.bad('restored', '%s:%s' % (f.qual.split(':')[-1], b[1]), f.where(),
                        '%s returns with %s not put back to what the caller had set (last changed at %s)'
                        % (f.qual, b[1].lstrip('_'), h.sites.get(b)))
            else:
                rep.ok('restored', '%s: %s put back on every return' % (f.qual, b[1]))
    rep.info['functions_analysed'] = sorted({x for x in w.inlined})
    rep.info['abstract_steps'] = w.steps
    rep.info['requests_that_move_settings'] = touched
