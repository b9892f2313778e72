"""C15: memory safety: every run on valid input under AddressSanitizer and UndefinedBehaviorSanitizer."""
import importlib, random
import gen, vp, build
from runner import Prop

PARTS = ['c01', 'c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c08', 'c09', 'c10', 'c11', 'c14', 'c14', 'c16', 'c17', 'c18']

class P(Prop):
    id = 'C15'
    builds = ['oracle'] + [k + ':scalar:asan' for k in ('msolve', 'hlib', 'hus', 'husmall')]
    quick_cases = 3000
    thorough_cases = 60000
    rule = ('cases of the other checks (bases over prime fields and the rationals, elimination, normal forms, saturation, parametrizations, real '
            'solutions, input formats, library histories, root isolation) run by a build with AddressSanitizer and UndefinedBehaviorSanitizer; a sanitizer report, a crash or '
            'a wrong result is a violation; non-trivial = non-trivial for the check the case is taken from')
    assumptions = ['sanitizers see the scalar code path only; uninitialised reads are covered by the filled heap blocks of the other checks; leaks are not reported']
    def setup(self):
        self.parts = {k: importlib.import_module(k).PROP for k in set(PARTS)}
    def gen(self, R, i, tier):
        k = R.choice(PARTS)
        c = self.parts[k].gen(R, i, tier)
        if c is None:
            return None
        if 'opts' in c and R.random() < .3:
            c['opts'] = [o for o in c['opts'] if o[0] != '-t'] + [['-t', R.choice([2, 2, 3, 5])]]
        return {'part': k, 'case': dict(c, variant='scalar:asan')}
    def check(self, case):
        nt, labels = self.parts[case['part']].check(case['case'])
        return nt, ['part:' + case['part']] + [l for l in labels if l.startswith('skipped')]
    def shrinks(self, case):
        for c in self.parts[case['part']].shrinks(case['case']):
            if c.get('variant') == 'scalar:asan':
                yield dict(case, case=c)
    def show(self, case):
        return dict(self.parts[case['part']].show(case['case']), part=case['part'])
PROP = P()
