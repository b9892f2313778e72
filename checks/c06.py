"""C06: real solutions of zero-dimensional systems over Q."""
import gen, vp, build
from solve import *
from gbq import adversarial
from runner import Prop

def solve_opts(R):
    o = []
    if R.random() < .2:
        o.append(['-l', R.choice([1, 2, 42, 44])])
    if R.random() < .2:
        o.append(['-s', R.choice([3, 5, 8, 12])])
    if R.random() < .1:
        o.append(['-m', R.choice([0, 1, 2, 10])])
    if R.random() < .15:
        o.append(['-L', R.choice([0, 1])])
    if R.random() < .2:
        o.append(['-d', R.choice([0, 1, 2, 3, 4])])
    if R.random() < .03:
        o.append(['-v', R.choice([1, 2])])
    return o

class P(Prop):
    id = 'C06'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 8000
    thorough_cases = 200000
    rule = ('zero-dimensional rational systems from 19 families (grids, complete intersections, multiple roots, close roots, '
            'huge roots, missing real roots, permuted and linearly changed variables); non-trivial = at least 2 real solutions in '
            '>= 2 variables')
    assumptions = ['reference real solutions come from a parametrization that is verified modulo 60-bit primes against '
                   'the system, with certified root enclosures']
    def gen(self, R, i, tier):
        fam, nv, F = gen.zerodim(R, big=(R.random() < .1))
        if nv > 1 and R.random() < .35 and not (fam.startswith('large') and R.random() < .9):
            F = gen.lin_change(R, F, nv)
        if nv > 1 and R.random() < .5:
            perm = list(range(nv)); R.shuffle(perm)
            F = gen.permute_vars(F, perm)
        t = gen.clock(R)
        F = [f for f in F if f]
        if not F:
            return None
        return {'fam': fam, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': solve_opts(R), 't': t,
                'prec': R.choice([None, None, None, None, 16, 64, 128, 200, 400]), 'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        nv = case['nv']
        F = gen.dec(case['F'])
        vs = vp.varnames(nv)
        info = vp.ref_info(F, vp.BIGP[0], nv)
        if info[0] != 0 or info[1] > 200:
            return False, ['skipped:not-zero-dim-or-large']
        opts = sum(case['opts'], []) + (['-p', case['prec']] if case['prec'] else [])
        text = vp.sys_str(vs, 0, F)
        try:
            par, nreal = self.once(F, nv, vs, text, opts, case, case['t'], info)
        except NotSeparating as e:
            return False, ['known:not-separating(%s)' % e]
        return nreal >= 2 and nv >= 2, ['fam:' + case['fam'], 'real:%s' % (nreal if nreal < 5 else '5+'),
                                        'nonradical' if info[1] != info[2] else 'radical',
                                        'newvar' if len(par.vars) > nv else 'permuted' if par.vars != vs else 'direct']
    def once(self, F, nv, vs, text, opts, case, t, info):
        r = vp.expect_ok(vp.run_msolve(text, opts, case['variant'], t=t))
        o = parse_output(r.out, vs)
        r2 = vp.expect_ok(vp.run_msolve(text, opts + ['-P', 2], case['variant'], t=t), 'with -P 2')
        o2 = parse_output(r2.out, vs)
        if o[0] != 'zero' or o2[0] != 'zero' or o[2] is None or o2[1] is None:
            raise vp.Bad('finitely many solutions (dimension of the quotient %d) but msolve answered %s / %s' %
                         (info[1], r.out[:100], r2.out[:100]))
        par = o2[1]
        check_separating(par, F, nv, vs, info)
        check_param_q(par, F, nv, vs, info)
        return par, check_boxes(par, vs, vs, o[2], case['prec'] or 128)
    def shrinks(self, case):
        if case['prec']:
            yield dict(case, prec=None)
        yield from gen.shrink_system(case)
    def show(self, case):
        return {'input': vp.sys_str(vp.varnames(case['nv']), 0, gen.dec(case['F'])), 'opts': case['opts'], 'precision': case['prec'],
                'binary': case['variant'], 'family': case['fam'], 'clock': case['t']}
PROP = P()
