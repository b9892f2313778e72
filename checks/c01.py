"""C01: reduced Groebner bases over prime fields (degree reverse lexicographic)."""
from gbp import GBP

class P(GBP):
    id = 'C01'
    quick_cases = 60000
    thorough_cases = 2000000
    rule = ('seeded random systems over F_p from 18 structural families (p from 2 to 2^31-1, 1..40 variables, exponents up to 1000), '
            'run with random engine options on AVX512/AVX2/scalar builds; non-trivial = reduced basis has at least two elements '
            'and differs from the input')
PROP = P()
