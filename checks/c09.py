"""C09: parametrization of the solutions over a prime field."""
import gen, vp, build
from solve import *
from c06 import solve_opts
from runner import Prop

class P(Prop):
    id = 'C09'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 16000
    thorough_cases = 400000
    rule = ('zero-dimensional systems over F_p, 2^16 < p < 1518500213, from 19 solution families and random systems with permuted '
            'and linearly changed variables; non-trivial = at least 3 distinct solutions in >= 2 variables')
    assumptions = ['number of distinct solutions over the closure comes from the reference']
    def gen(self, R, i, tier):
        while True:
            p = gen.prime(R, '32') if R.random() < .7 else R.choice([65537, 65539, 1073741827, 1518500183, 131101, 1303905301])
            if (1 << 16) < p < 1518500213:
                break
        if R.random() < .75:
            fam, nv, F = gen.zerodim(R, big=(R.random() < .1))
            if nv > 1 and R.random() < .3 and not (fam.startswith('large') and R.random() < .9):
                F = gen.lin_change(R, F, nv)
            if any(getattr(c, 'denominator', 1) % p == 0 for f in F for c in f.values()):
                return None
            F = gen.redp([{e: vp.modp(c, p) for e, c in f.items()} for f in F], p)
            if R.random() < .4:
                # full-size coefficients: scale generators
                F = [{e: c * k % p for e, c in f.items()} for f in F for k in [R.randrange(1, p)]]
        else:
            fam, nv, F = gen.system(R, p, fam=R.choice(['points', 'sparse', 'quadrics', 'dense', 'univ', 'linear', 'named', 'monomial', 'mixed']))
        if nv > 1 and R.random() < .5:
            perm = list(range(nv)); R.shuffle(perm)
            F = gen.permute_vars(F, perm)
        F = [f for f in F if f]
        if not F:
            return None
        return {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': solve_opts(R) if p > (1 << 26) else [],
                't': R.randrange(10 ** 9), 'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        nv, p = case['nv'], case['p']
        F = gen.dec(case['F'])
        vs = vp.varnames(nv)
        info = vp.ref_info(F, p, nv)
        if info[0] != 0 or info[1] > 400:
            return False, ['skipped:not-zero-dim-or-large']
        try:
            par = self.judge(case, F, nv, vs, p, info, case['t'])
            unlucky = []
        except Unlucky:
            # the eliminating polynomial comes from a random projection, which misses a factor with probability (number of solutions)/p:
            # only a result that does not go away with other random choices is wrong
            for k in range(1, 5):
                par = self.judge(case, F, nv, vs, p, info, case['t'] + 7919 * k)
            unlucky = ['unlucky-projection']
        if isinstance(par, NotSeparating):
            return False, ['known:not-separating(%s)' % par]
        return info[2] >= 3 and nv >= 2, ['fam:' + case['fam'], 'nonradical' if info[1] != info[2] else 'radical',
                                          'newvar' if len(par.vars) > nv else 'permuted' if par.vars != vs else 'direct'] + unlucky
    def judge(self, case, F, nv, vs, p, info, t):
        r = vp.expect_ok(vp.run_msolve(vp.sys_str(vs, p, F), sum(case['opts'], []), case['variant'], t=t))
        o = parse_output(r.out, vs)
        if o[0] != 'zero' or o[1] is None:
            raise vp.Bad('finitely many solutions (dimension of the quotient %d) but msolve answered %s' % (info[1], r.out[:100]))
        par = o[1]
        try:
            check_separating(par, F, nv, vs, info)
        except NotSeparating as e:
            return e
        check_param_p(par, F, nv, vs, p, info)
        return par
    def shrinks(self, case):
        return gen.shrink_system(case)
    def show(self, case):
        return {'input': vp.sys_str(vp.varnames(case['nv']), case['p'], gen.dec(case['F'])), 'opts': case['opts'],
                'binary': case['variant'], 'family': case['fam'], 'clock': case['t']}
PROP = P()
