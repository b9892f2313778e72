"""C08: rational parametrizations over Q."""
import gen, vp, build
from solve import *
from gbq import adversarial
from c06 import solve_opts
from runner import Prop

class P(Prop):
    id = 'C08'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 16000
    thorough_cases = 300000
    rule = ('zero-dimensional rational systems, 20% of them with coefficients divisible by primes the run will use, options '
            '-P 1/2, -c 0/1/2, -d, -L, -l, -s; non-trivial = at least 3 distinct complex solutions in >= 2 variables')
    assumptions = ['the printed parametrization is substituted into the system modulo a 61-bit prime, a failure is confirmed modulo a second one']
    def gen(self, R, i, tier):
        fam, nv, F = gen.zerodim(R, big=(R.random() < .15))
        if R.random() < .15:
            fam, nv, F = gen.system(R, 0, fam=R.choice(['points', 'quadrics', 'dense', 'sparse', 'linear', 'mixed']))
        if nv > 1 and R.random() < .35 and not (fam.startswith('large') and R.random() < .9):
            F = gen.lin_change(R, F, nv)
        if nv > 1 and R.random() < .5:
            perm = list(range(nv)); R.shuffle(perm)
            F = gen.permute_vars(F, perm)
        t = gen.clock(R)
        F = [f for f in F if f]
        if F and R.random() < .2:
            fam += '+adv'
            F = adversarial(R, F, nv, t)
        if not F:
            return None
        return {'fam': fam, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': solve_opts(R), 't': t, 'P': R.choice([1, 2, 2]),
                'c': R.choice([None, None, None, None, 0, 1, 2]), 'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        nv = case['nv']
        F = gen.dec(case['F'])
        vs = vp.varnames(nv)
        info = vp.ref_info(F, vp.BIGP[0], nv)
        if info[0] != 0 or info[1] > 200:
            return False, ['skipped:not-zero-dim-or-large']
        opts = sum(case['opts'], []) + ['-P', case['P']] + ([] if case['c'] is None else ['-c', case['c']])
        r = vp.run_msolve(vp.sys_str(vs, 0, F), opts, case['variant'], t=case['t'])
        if case['c'] in (0, 1) and 'Computation failed' in r.stderr and r.rc in (0, 1) and not r.out.strip():
            return False, ['declined:-c%d' % case['c']]
        vp.expect_ok(r)
        o = parse_output(r.out, vs)
        if o[0] != 'zero' or o[1] is None or (o[2] is None) != (case['P'] == 2):
            raise vp.Bad('finitely many solutions (dimension of the quotient %d) but msolve answered %s' % (info[1], r.out[:100]))
        par = o[1]
        if case['c'] == 0 and par.vars != vs or case['c'] == 1 and len(par.vars) != nv:
            raise vp.Bad('variables %s were used although -c %d forbids it' % (par.vars, case['c']))
        try:
            check_separating(par, F, nv, vs, info)
        except NotSeparating as e:
            return False, ['known:not-separating(%s)' % e]
        check_param_q(par, F, nv, vs, info)
        if o[2] is not None:
            check_boxes(par, vs, [v for v in par.vars if v in vs], o[2])
        bits = max(abs(c).bit_length() for c in par.w)
        return info[2] >= 3 and nv >= 2, ['fam:' + case['fam'], 'nonradical' if info[1] != info[2] else 'radical', 'P%d' % case['P'],
                                          'bits<=31' if bits <= 31 else 'bits<=128' if bits <= 128 else 'bits>128',
                                          'newvar' if len(par.vars) > nv else 'permuted' if par.vars != vs else 'direct']
    def excused(self, case):
        return vp.unlucky_start([f for f in gen.dec(case['F']) if f], case['nv'], case['t'])
    def shrinks(self, case):
        if case['c'] is not None:
            yield dict(case, c=None)
        if case['P'] == 1:
            yield dict(case, P=2)
        yield from gen.shrink_system(case)
    def show(self, case):
        return {'input': vp.sys_str(vp.varnames(case['nv']), 0, gen.dec(case['F'])), 'opts': case['opts'], 'P': case['P'], 'c': case['c'],
                'binary': case['variant'], 'family': case['fam'], 'clock': case['t']}
PROP = P()
