"""C01: a changed calculation setting never leaves a stale result behind."""
from . import stalecheck


def run(rep):
    stalecheck.run(rep, ['SELF'], 'Quasiparticle')
