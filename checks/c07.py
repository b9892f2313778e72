"""C07: the precision option controls the width of the solution boxes."""
import gen, vp, build
from fractions import Fraction
from solve import *
from c06 import solve_opts
from runner import Prop

class P(Prop):
    id = 'C07'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 9000
    thorough_cases = 200000
    rule = ('zero-dimensional rational systems with at least one real solution, solved with two different precisions; '
            'non-trivial = at least 2 real solutions and some coordinate that is not exact')
    assumptions = ['width at most 2^(2-b) relative to max(1,|x|) with b = p for p <= 64, else b = max(64,p/2) '
                   '(the tutorial promises p bits for the univariate solver; the evaluation of the coordinates loses some)']
    def gen(self, R, i, tier):
        fam, nv, F = gen.zerodim(R)
        if nv > 1 and R.random() < .35 and not (fam.startswith('large') and R.random() < .9):
            F = gen.lin_change(R, F, nv)
        if nv > 1 and R.random() < .5:
            perm = list(range(nv)); R.shuffle(perm)
            F = gen.permute_vars(F, perm)
        F = [f for f in F if f]
        if not F:
            return None
        return {'fam': fam, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': [], 't': gen.clock(R),
                'p1': R.choice([1, 4, 8, 10, 16, 32, 50, 64]), 'p2': R.choice([100, 128, 200, 300, 600, 800, 1000, 2000]), 'P': R.choice([0, 0, 1]),
                'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        nv = case['nv']
        F = gen.dec(case['F'])
        vs = vp.varnames(nv)
        info = vp.ref_info(F, vp.BIGP[0], nv)
        if info[0] != 0 or info[1] > 200:
            return False, ['skipped:not-zero-dim-or-large']
        text = vp.sys_str(vs, 0, F)
        res = []
        for p in (case['p1'], case['p2']):
            o = parse_output(vp.expect_ok(vp.run_msolve(text, ['-p', p, '-P', case['P']], case['variant'], t=case['t'])).out, vs)
            if o[0] != 'zero' or o[2] is None:
                raise vp.Bad('no solution list with -p %d' % p)
            check_boxes_shape(o[2], nv)
            res.append(o[2])
        A, B = res
        if len(A) != len(B):
            raise vp.Bad('%d real solutions with -p %d but %d with -p %d' % (len(A), case['p1'], len(B), case['p2']))
        exact = True
        for p, L in ((case['p1'], A), (case['p2'], B)):
            tol = width_bound(p)
            for b in L:
                for lo, hi in b:
                    exact = exact and lo == hi
                    if hi - lo > tol * max(1, abs(lo), abs(hi)):
                        raise vp.Bad('interval [%s, %s] is wider than precision %d allows' % (str(lo)[:60], str(hi)[:60], p))
        inc = [(i, j) for i, a in enumerate(A) for j, b in enumerate(B)
               if all(x[0] <= y[1] and y[0] <= x[1] for x, y in zip(a, b))]
        if not matching(len(A), inc):
            raise vp.Bad('boxes with -p %d and -p %d describe different points: %s / %s' %
                         (case['p1'], case['p2'], str(A)[:200], str(B)[:200]))
        return len(A) >= 2 and not exact, ['fam:' + case['fam'], 'real:%s' % (len(A) if len(A) < 5 else '5+'), 'p1:%d' % case['p1']]
    def shrinks(self, case):
        return gen.shrink_system(case)
    def show(self, case):
        return {'input': vp.sys_str(vp.varnames(case['nv']), 0, gen.dec(case['F'])), 'precisions': [case['p1'], case['p2']],
                'binary': case['variant'], 'family': case['fam'], 'clock': case['t']}
PROP = P()
