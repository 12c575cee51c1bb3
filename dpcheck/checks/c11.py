"""C11, decided on the abstract execution of the C kernels (dpcheck/cmach.py)."""
from .ccheck import verdict

RULES = {
    'bounds': 'every access of a kernel is inside the array or buffer it goes to, for all inputs that pass the checks of the kernel (polyhedral reasoning over the input sizes and one generic turn of each loop)',
    'divisor': 'no division has a divisor that is an integer quantity that can be zero',
    'ends': 'every loop gets closer to its limit in every turn; every recursion has a smaller positive count',
    'released': 'nothing is used after it was released',
    'layout': 'the data of an array are read as a contiguous block only if the array was requested contiguous',
    'arguments': 'format, keywords, variables and registration flags of a function agree',
}


def run(rep):
    verdict(rep, RULES)
