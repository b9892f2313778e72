"""C04: elimination ideals over the rationals."""
from gbq import GBQ
class P(GBQ):
    id = 'C04'
    elim = True
    quick_cases = 20000
    thorough_cases = 400000
    rule = ('as C03 with a random number of eliminated variables; non-trivial = elimination ideal has >= 2 basis elements, '
            'one of them not a monomial')
PROP = P()
