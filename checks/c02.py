"""C02: Groebner bases over prime fields for the elimination block order."""
from gbp import GBP

class P(GBP):
    id = 'C02'
    elim = True
    quick_cases = 50000
    thorough_cases = 1500000
    rule = ('as C01 with a random split of the variables; non-trivial = reduced basis for the block order has at least two '
            'elements and differs from the input')
PROP = P()
