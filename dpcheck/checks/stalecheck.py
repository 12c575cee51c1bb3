"""Shared by C01 and C02: the invariant 'every remembered result is empty or computed from the present settings'."""
from .. import status
from ..model import Program
from ..stale import World

RULES = {
    'stale-exit': 'no public operation ends with a remembered result that was computed before something it depends on changed',
    'stale-use': 'no remembered result is returned, stored or shown after something it depends on changed',
    'mutated': 'no remembered result is modified in place',
    'discarded': 'no operation discards a remembered result between computing it and using it',
    'unmasked': 'dropping data that takes precedence over a remembered result also discards the remembered result',
}


def run(rep, oids, what):
    w = World(Program(norm='light'))
    memos = sorted(m for m in w.D if m[0] in oids and m in w.memos)
    rep.need(len(memos) >= 3, 'the remembered results of %s are not found' % what)
    for r in sorted(RULES):
        rep.rule(r, RULES[r])
    bad, obligations, limits = status.run_all(w, oids)
    lim = set(limits)
    for r, key, where, text in bad:
        rep.bad(r, key, where, text)
    broken = {(k.split(':')[0], k.split(':')[1]) for _, k, _, _ in bad}
    for m, q in obligations:
        if (m, q) in lim:
            rep.skip('stale-exit', '%s / %s' % (m[1], q), 'analysis budget exhausted')
        elif (q.split(':')[-1], m[1]) not in broken:
            rep.ok('stale-exit', '%s keeps %s (depends on %s)' % (q, m[1], ', '.join(sorted(b[1].lstrip('_') for b in w.D[m]))))
    rep.info['remembered_results'] = {m[1]: sorted('%s.%s' % b for b in w.D[m]) for m in memos}
    rep.info['obligations_operation_x_result'] = len(obligations)
    rep.info['functions_analysed'] = sorted({x for x in w.inlined})
    rep.info['abstract_steps'] = w.steps
    rep.assumptions += [
        'a result that is overwritten by data the user assigns (loaded velocities, trajectories) is the user\'s until the next change',
        'numpy and phonopy functions are deterministic and do not keep their arguments',
        'objects are used from one thread; attributes are set only by the classes that define them (private attributes)',
    ]
