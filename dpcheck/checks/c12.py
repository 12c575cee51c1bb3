"""C12, decided on the abstract execution of the C kernels (dpcheck/cmach.py)."""
from .ccheck import verdict

RULES = {
    'null': 'what an allocation or conversion returns is checked before it is used or released',
    'leak': 'every buffer and reference acquired is released or handed over on every way out, and in every turn of a loop',
    'twice': 'nothing is released twice, in part, or without being owned',
    'released': 'nothing is used after it was released',
    'exception': 'NULL is returned with an exception set, a result without',
    'result': 'every way out gives a result',
}


def run(rep):
    verdict(rep, RULES)
