"""C05: empty / finite / infinite solution set is classified correctly."""
import gen, vp, build
from solve import *
from c06 import solve_opts
from runner import Prop

class P(Prop):
    id = 'C05'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 16000
    thorough_cases = 400000
    rule = ('random systems from 17 families over Q and over prime fields with p < 2^31 (finite solution sets over F_p only for '
            '2^16 < p < 1518500213, where solving is supported); non-trivial = at least 2 generators, no nonzero constant among them')
    assumptions = ['over Q the dimension is computed modulo a 61-bit prime']
    def gen(self, R, i, tier):
        p = 0 if R.random() < .5 else gen.prime(R, R.choice(['8', '16', '32', '32', 'edge']))
        if R.random() < .25:
            fam, nv, F = gen.zerodim(R)
            if R.random() < .4 and len(F) > 1:
                F.pop(R.randrange(len(F)))
            elif R.random() < .4:
                F.append(gen.rpoly(R, nv, 2, 3, 0, 'small'))
            if p:
                F = gen.redp([{e: vp.modp(c, p) for e, c in f.items()} for f in F], p) if all(
                    getattr(c, 'denominator', 1) % p for f in F for c in f.values()) else []
        else:
            fam, nv, F = gen.system(R, p, fam=R.choice([f for f in gen.FAMILIES if f not in ('highexp',)]))
        F = [f for f in F if f]
        if not F:
            return None
        return {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': solve_opts(R) if p == 0 or p > (1 << 26) else [],
                't': gen.clock(R), 'P': R.choice([None, 0, 1, 2]), 'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        nv, p = case['nv'], case['p']
        F = gen.dec(case['F'])
        vs = vp.varnames(nv)
        info = vp.ref_info(F, p or vp.BIGP[0], nv)
        if info[0] == 0 and (info[1] > 200 or (p and not (1 << 16) < p < 1518500213)):
            return False, ['skipped:finite-but-large-or-unsupported-field']
        if info[0] != 0:
            G = vp.ref_gb(F, p or vp.BIGP[0], nv)
            if max((max(e) for f in F + G for e in f), default=0) > 3000:
                return False, ['skipped:huge']
        opts = sum(case['opts'], []) + (['-P', case['P']] if case['P'] is not None else [])
        r = vp.expect_ok(vp.run_msolve(vp.sys_str(vs, p, F), opts, case['variant'], t=case['t']))
        o = parse_output(r.out, vs)
        want = 'empty' if info[0] < 0 else 'zero' if info[0] == 0 else 'posdim'
        if o[0] != want or (want == 'posdim' and o[1] != nv):
            raise vp.Bad('solution set is %s (reference: dimension %d, degree %d), msolve answered %s' %
                         (want, info[0], info[1], r.out[:200]))
        if want == 'zero':
            if (o[1] is None) != (p == 0 and case['P'] in (None, 0)) or (o[2] is None) != (p != 0 or case['P'] == 2):
                raise vp.Bad('output does not have the parts asked for: %s' % r.out[:200])
            if o[1] and o[1].deg != info[1]:
                raise vp.Bad('reported degree %s, reference %s' % (o[1].deg, info[1]))
        nt = len(F) >= 2 and not any(set(f) == {(0,) * nv} for f in F)
        return nt, ['kind:' + want, 'Q' if p == 0 else 'Fp', 'fam:' + case['fam'], 'P:%s' % case['P']]
    def shrinks(self, case):
        if case['P'] is not None:
            yield dict(case, P=None)
        yield from gen.shrink_system(case)
    def show(self, case):
        return {'input': vp.sys_str(vp.varnames(case['nv']), case['p'], gen.dec(case['F'])), 'opts': case['opts'],
                'P': case['P'], 'binary': case['variant'], 'clock': case['t']}
PROP = P()
