"""C13: thread count and schedule do not influence the result."""
import importlib
import gen, vp, build, gbp
from runner import Prop

PARTS = ['c01', 'c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c06', 'c08', 'c09', 'c10', 'c11', 'c16', 'c17']
VARS = ['scalar:sched', build.native() + ':sched']

def big(R):
    """systems whose matrices have enough rows to keep several threads busy"""
    m = R.choice(['named', 'quadrics', 'quadrics', 'mixed', 'cubics', 'elim', 'rows'])
    if m == 'named':
        return (m,) + R.choice([lambda: gen.katsura(R.randint(4, 6)), lambda: gen.cyclic(5), lambda: gen.noon(R.randint(3, 4)), lambda: gen.eco(R.randint(5, 6))])()
    nv = R.randint(3, 5)
    st = R.choice(gen.COEF_P)
    if m == 'rows':
        # many generators of the same degree: most rows of the first matrix are new pivots or reduce to zero
        n = R.randint(6, 24)
        return m, nv, [gen.rpoly(R, nv, 3 if nv < 5 else 2, R.randint(3, 15), 0, 'small') for _ in range(n)]
    if m == 'elim':
        nv = R.randint(3, 4)
        return m, nv, [gen.rpoly(R, nv, 2, R.randint(3, 8), 0, 'small') for _ in range(nv)]
    n = nv + R.choice([0, 0, 1, 2]) - (m == 'mixed')
    d = {'quadrics': [2], 'mixed': [2, 2, 3], 'cubics': [3]}[m]
    if m == 'cubics':
        nv = n = 3
    return m, nv, [gen.rpoly(R, nv, R.choice(d), R.randint(4, 20), 0, 'small') for _ in range(n)]

class P(Prop):
    id = 'C13'
    builds = (['oracle'] + ['msolve:' + v for v in VARS] + ['hlib:' + v for v in VARS] + ['hus:' + v for v in VARS] + ['husmall:' + v for v in VARS]
              + ['msolve:' + v for v in build.variants()])
    quick_cases = 16000
    thorough_cases = 400000
    rule = ('cases of the other checks and larger systems run with 2 to 12 threads under generated schedules (the threads are coroutines switched by a seeded '
            'scheduler at memory accesses, atomic operations and allocations); results are judged by the oracle of the check the case comes from, or compared with the '
            'single-threaded result; non-trivial = at least one parallel region was entered and threads were switched at least 10 times')
    assumptions = ['memory accesses are sequentially consistent; SIMD loads and code inside of GMP and FLINT are not preempted']
    def setup(self):
        self.parts = {k: importlib.import_module(k).PROP for k in set(PARTS)}
    def gen(self, R, i, tier):
        s = {'seed': R.randrange(1, 10 ** 6), 'rate': R.choice([1, 3, 10, 30, 100, 300, 1000, 5000, 30000]), 'nt': R.choice([2, 2, 3, 4, 4, 8, 12]),
             'variant': R.choice(VARS)}
        if R.random() < .45:
            p = gen.prime(R) if R.random() < .85 else 0
            m, nv, F = big(R)
            if p:
                F = gen.redp([{e: vp.modp(c, p) for e, c in f.items()} for f in F], p)
            F = [f for f in F if f]
            if not F:
                return None
            o = gbp.gb_options(R, p) if p else []
            if p > (1 << 26):
                o = [x for x in o if x[0] != '-l'] + [['-l', R.choice([1, 2, 2, 42, 44, 44])]]
            return dict(s, part='big', case={'fam': m, 'p': p, 'nv': nv, 'F': gen.enc(F), 'elim': R.randint(1, 2) if m == 'elim' else 0, 'opts': o, 't': 2 * R.randrange(10 ** 6)})
        k = R.choice(PARTS)
        c = self.parts[k].gen(R, i, tier)
        if c is None:
            return None
        return dict(s, part=k, case=c)
    def check(self, case):
        c, v = case['case'], case['variant']
        out = vp.scratch() + '/sched.out'
        env = {'VP_SCHED': str(case['seed']), 'VP_RATE': str(case['rate']), 'VP_SCHED_OUT': out}
        if case['part'] == 'big':
            nt, labels = self.check_big(case, c, v, env)
        else:
            c = dict(c, variant=v)
            if case['part'] == 'c16':
                c['calls'] = [dict(k, thr=case['nt']) for k in c['calls']]
            elif case['part'] == 'c17':
                c['nt'] = case['nt']
            else:
                c['opts'] = [o for o in c['opts'] if o[0] != '-t'] + [['-t', case['nt']]]
            vp.ENV.update(env)
            try:
                nt, labels = self.parts[case['part']].check(c)
            finally:
                vp.ENV.clear()
        try:
            with open(out) as f:
                rg, sw = map(int, f.read().split())
        except (OSError, ValueError):
            rg = sw = 0
        return rg > 0 and sw >= 10, ['part:' + case['part'], 'switches:' + ('0' if not sw else '<10' if sw < 10 else '<100' if sw < 100 else '<1000' if sw < 1000 else '>=1000')] + \
               [l for l in labels if l.startswith('skipped')]
    def check_big(self, case, c, v, env):
        nv, p = c['nv'], c['p']
        txt = vp.sys_str(vp.varnames(nv), p, gen.dec(c['F']))
        o = ['-g', 2] + (['-e', c['elim']] if c['elim'] else []) + sum(c['opts'], [])
        one = vp.run_msolve(txt, o, build.native(), t=c['t'], cpu=2)
        if one.timeout:
            return False, ['skipped:expensive']
        vp.expect_ok(one)
        vp.ENV.update(env)
        try:
            many = vp.expect_ok(vp.run_msolve(txt, o + ['-t', case['nt']], v, t=c['t']))
        finally:
            vp.ENV.clear()
        a, b = ['\n'.join(l for l in r.out.split('\n') if not l.startswith('#')) for r in (one, many)]
        if a != b:
            raise vp.Bad('result with %d threads differs from the result with one thread: %s ... %s' % (case['nt'], b[:300], a[:300]))
        return True, []
    def shrinks(self, case):
        if case['part'] == 'big':
            for s in gen.shrink_system(case['case']):
                yield dict(case, case=s)
        else:
            for s in self.parts[case['part']].shrinks(case['case']):
                yield dict(case, case=s)
        for n in (2, 3):
            if case['nt'] > n:
                yield dict(case, nt=n)
        for s in range(1, 30):
            if s < case['seed']:
                yield dict(case, seed=s)
    def show(self, case):
        c = case['case']
        d = {k: case[k] for k in ('part', 'seed', 'rate', 'nt')}
        d['binary'] = case['variant']
        if case['part'] == 'big':
            return dict(d, input=vp.sys_str(vp.varnames(c['nv']), c['p'], gen.dec(c['F'])), opts=c['opts'], elim=c['elim'])
        return dict(d, case=self.parts[case['part']].show(c))
PROP = P()
