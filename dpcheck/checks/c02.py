"""C02: structure and trajectory queries follow the data that was last set."""
from . import stalecheck


def run(rep):
    stalecheck.run(rep, ['STR', 'DYN'], 'Structure and Dynamics')
