"""C03: reduced Groebner bases over the rationals."""
from gbq import GBQ
class P(GBQ):
    id = 'C03'
    quick_cases = 25000
    thorough_cases = 500000
    rule = ('seeded random systems over Q from 17 structural families, 20% with coefficients divisible by primes the run is '
            'likely to pick; non-trivial = reduced basis has >= 2 elements, one of them not a monomial')
PROP = P()
