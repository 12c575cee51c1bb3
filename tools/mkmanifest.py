"""Writes MANIFEST.json from the checks that exist (kept as a script so that the texts stay reviewable)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': ('abstract interpretation of the class sources: memo dependency and invalidation (typestate) analysis',
            'Inductive invariant per (public operation, remembered result), decided on all paths; path joins over-approximate.'),
    'C02': ('abstract interpretation of the class sources: memo dependency and invalidation (typestate) analysis',
            'As C01, for Structure and Dynamics, each with respect to its own setters.'),
    'C03': ('abstract interpretation: argument dependence of remembered results and key agreement at every return',
            'Every (request argument, remembered result) pair with a dependence is decided.'),
    'C04': ('typestate analysis of the menu and driver as clients of the calculation object',
            'Assumes the operations of the calculation keep their own invariant (C01).'),
    'C05': ('abstract interpretation: save/restore of settings on every return path',
            'Every request that may write a setting is decided; exceptions are not covered.'),
    'C06': ('dataflow of option values from argparse to operations and settings; liveness of parameters; getter/setter field agreement; keyword/key tables; settings-to-call wiring',
            'Option targets are a table taken from the documentation; values that pass through constructs not followed are left undecided.'),
    'C10': ('sibling agreement of file writers and readers: dataset and key tables extracted from the source, guard analysis, tag dataflow of values into and out of datasets, slice agreement of joined arrays',
            'Datasets are named by literals (or loops over literals); a handle passed elsewhere makes its function undecided.'),
    'C22': ('interprocedural alias and in-place effect analysis; open-mode versus use of every handle',
            'Effects through library functions are those of a table of in-place operations; unknown receivers are quiet.'),
    'C18': ('constant folding of the literal tables against a reference table; collision analysis of the identification key',
            'Tables that are no longer literals are left undecided.'),
    'C24': ('name, type and signature resolution over the syntax trees of the package, its scripts, its C tables and the installed packages; path-sensitive definite assignment',
            'Constructs whose receiver type is not inferred are left undecided (quiet).'),
    'C25': ('exit-status dataflow over every process end; call-graph search for handlers that swallow it',
            'Computed statuses are left undecided; what counts as a completed action is a call other than printing before the exit.'),
    'C26': ('symbolic normal form (complex-coefficient polynomials over resolved definitions) of every exponent, Python and C (clang syntax tree); conjugation parity dataflow; agreement of projection, synthesis and correlation phases',
            'Quantities without an imaginary literal in their definition are taken as real; phases written with cos/sin are left undecided.'),
    'C14': ('interface conformance of the registered algorithms: abstract interpretation of each over (layout, realness, conversion factor, powers of step and size), sibling agreement, guard dominance for unknown numbers, in-place effects',
            'Arrays built by constructs outside the domain are left undecided.'),
    'C15': ('interface conformance of the fitting classes: abstract values of the fitted parameter vector through methods and attributes, roles of the model parameters read from the formula, guard dominance in the users',
            'Models whose formula is not of the recognised forms and computed dictionaries are left undecided.'),
    'C16': ('path enumeration of the appends in one turn of each result loop (balance of lists used together); provenance of each stored quantity; must-precede analysis of the wave vector of the turn; agreement of record indices and unpacked tuples',
            'Loops whose appends are in nested loops, and results built without append, are left undecided or are not instances.'),
    'C09': ('dataflow of backing-file names (unique, fixed, made once) into every memory mapped array; once-per-loop guard analysis of creations; ownership of removed files',
            'Names computed by constructs that are not followed are left undecided.'),
    'C07': ('path-enumerating symbolic lengths (steps selected and cuts made) of the per-step sequences in every reader, up to the construction of the trajectory object and through every cut',
            'Paths are enumerated over the tests of each reader with loops run to a fixed point of relative counts; nothing is bounded, one reader (two separate files) is not compared.'),
    'C08': ('path-enumerating abstract interpretation of every trajectory reader: step tests, file-position typestate, selections and cuts of the stored frames, power of the time step',
            'Step tests are compared as linear forms with the parameters; the meaning of file labels is not analysed.'),
    'C23': ('abstract interpretation of the LAMMPS link: per-atom arrays typed with the run after which they were read and the orders applied to their rows',
            'LAMMPS itself is trusted to give ids, positions and velocities in one order between two runs.'),
    'C11': ('abstract interpretation of the C kernels over the clang syntax tree: affine and polynomial facts per path, generic loop turns, bounds obligations discharged by Farkas combination; a violation needs a satisfiable witness',
            'Sizes are taken to fit in int; floating-point conditions are free (both outcomes explored); the numpy C API is trusted to its documentation.'),
    'C12': ('typestate (ownership) analysis of buffers and references over every path of the C kernels (clang syntax tree), including error returns and cleanup labels',
            'The ownership effect of each Python/numpy C function is a table taken from their documentation.'),
    'C13': ('race analysis of every OpenMP region: sharing attributes, footprint of each location as an affine function of the parallel loop variable, callee effects',
            'Regions are those marked by omp pragmas; pointers whose target is not followed are left undecided.'),
    'C21': ('exact symbolic algebra over the syntax tree: abstract evaluation of the thermal formulas to normal forms of Laurent polynomials with exponential and logarithmic atoms, derivatives taken formally and compared for identity',
            'The laws are proved for any value of the physical constants (those are C17); floating overflow at very low temperature and negative frequencies are outside.'),
    'C17': ('unit inference (unification over free abelian groups of units, with powers of 2 pi) on the Python and C syntax trees; exact formula algebra; value table of the constants',
            'Expressions whose unit is not determined are left undecided; library functions follow a table of unit rules.'),
    'C20': ('type inference of reference frames: every array axis of the Python sources and every index of the C displacement kernel gets the basis it refers to; definite mixtures are violations',
            'Frames of the public getters and of a few parameters are the documented ones; axes whose basis is not determined are left undecided.'),
    'C19': ('inference of index spaces: every array axis and every index of the Python sources gets the set of atoms it runs over (unit cell, supercell in the common order, types, file); definite mixtures, other orders of expansion and data not reordered are violations',
            'Axes of the public getters and of a few parameters are the documented ones; axes whose space is not determined are left undecided.'),
}
NA = {
    'C30': 'statistical agreement of numerical algorithms on unbounded data: no sound static argument in reach bounds the differences',
    'C31': 'convergence of a least-squares fit depends on runtime data and on the optimiser: not decidable from the source',
    'C32': 'a numerical identity of floating-point linear algebra and of phonopy internals over all crystals: not decidable from the source',
    'C33': 'a numerical identity (Parseval) of sampled data and window functions: depends on runtime sampling, not on a checkable source rule',
    'C34': 'end-to-end numerical accuracy of the whole chain: not decidable from the source',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        have = os.path.exists(os.path.join(HERE, 'dpcheck', 'checks', i.lower() + '.py'))
        if have and i in TECH:
            checks.append({'property': i,
                           'quick_cmd': 'python3 check.py %s' % i,
                           'thorough_cmd': 'python3 check.py %s' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'static analysis: ' + TECH[i][0],
                           'level': 'other',
                           'level_note': TECH[i][1]})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    m = {'version': 1,
         'setup_cmd': 'python3 -m py_compile check.py && python3 check.py --list',
         'checks': checks,
         'not_applicable': na,
         'notes': 'All checks parse the current source of /repo; nothing of /repo is executed. No hooks are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
