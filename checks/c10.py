"""C10: normal forms over prime fields."""
import gen, vp, build
import gbp
from gbp import canon
from runner import Prop

def target(R, F, nv, p, style):
    k = R.random()
    if k < .08:
        return {}
    if k < .16:
        return gen.const(nv, gen.coef(R, p, style))
    if k < .45:
        # an element of the ideal, possibly plus something small
        f = {}
        for _ in range(R.randint(1, 3)):
            f = gen.add(f, gen.mul(R.choice(F), gen.rpoly(R, nv, R.choice([0, 1, 2]), R.randint(1, 3), p, style), p), 1, p)
        if R.random() < .5:
            f = gen.add(f, gen.rpoly(R, nv, 1, R.randint(1, 2), p, style), 1, p)
        return f
    if k < .6:
        return {gen.rmon(R, nv, R.choice([1, 3, 6, 9])): gen.coef(R, p, style)}
    return gen.rpoly(R, nv, R.choice([1, 2, 3, 4, 6]), R.randint(1, 8), p, style)

class P(Prop):
    id = 'C10'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 35000
    thorough_cases = 400000
    rule = ('ideals from 17 families over F_p (8, 16, 32 bit) with 1..29 polynomials to reduce (ideal members, monomials, constants, zero, repeated, '
            'random), with and without the promise that the generators are a basis (-i), block orders, all linear algebra options; '
            'non-trivial = at least 2 basis elements and some normal form that is neither 0 nor the polynomial itself')
    assumptions = gbp.GBP.assumptions
    def gen(self, R, i, tier):
        p = gen.prime(R)
        fam, nv, F = gen.system(R, p)
        F = [f for f in F if f]
        style = R.choice(gen.COEF_P)
        n = R.choice([1, 1, 2, 3, 6, 6, 12, 25])
        T = [target(R, F, nv, p, style) for _ in range(n)]
        if R.random() < .2:
            # repeated targets, scalar multiples and sums of targets
            for _ in range(R.randint(1, 3)):
                a = R.randrange(1, p)
                T.insert(R.randrange(len(T) + 1), {e: c * a % p for e, c in R.choice(T).items()})
            T.append(gen.add(R.choice(T), R.choice(T), R.randrange(1, p), p))
        c = {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'T': gen.enc(T), 'opts': gbp.gb_options(R, p), 't': R.randrange(10 ** 6),
             'isgb': R.random() < .3, 'sel': R.randrange(1 << 30), 'variant': R.choice([build.native()] + build.variants())}
        if nv > 1 and R.random() < .15:
            c['elim'] = R.randint(1, nv - 1)
        return c
    def check(self, case):
        import random
        p, nv, k = case['p'], case['nv'], case.get('elim', 0)
        F, T = gen.dec(case['F']), gen.dec(case['T'])
        if not any(F):
            return False, ['skipped:zero-ideal']
        G = vp.ref_gb(F, p, nv, k)
        if not gbp.in_domain(F + T, G, nv):
            return False, ['skipped:huge-exponents-or-quotient']
        N = vp.ref_nf(G, T, p, nv, k)
        vs = vp.varnames(nv)
        opts = ['-n', len(T)] + (['-e', k] if k else []) + sum(case['opts'], [])
        I = F
        if case['isgb']:
            R = random.Random(case['sel'])
            I = [{e: c * s % p for e, c in g.items()} for g in G for s in [R.randrange(1, p)]]
            for _ in range(R.choice([0, 0, 1, 1, 4])):
                # a basis need not be reduced
                I.append(gen.mul(R.choice(G), {gen.rmon(R, nv, 2): R.randrange(1, p)}, p))
            R.shuffle(I)
            opts = ['-i'] + opts
        r = vp.expect_ok(vp.run_msolve(vp.sys_str(vs, p, I + T), opts, case['variant'], t=case['t']))
        H = vp.parse_gb(r.out, vs)
        H = [{} if h == {(0,) * nv: 0} else h for h in H]
        if len(H) != len(T):
            raise vp.Bad('%d normal forms asked for, %d printed' % (len(T), len(H)))
        for h, n, t in zip(H, N, T):
            if h != n:
                raise vp.Bad('normal form of %s is %s, printed %s' % (vp.poly_str(t, vs)[:200], vp.poly_str(n, vs)[:300], vp.poly_str(h, vs)[:300]))
        nt = len(G) >= 2 and any(n and n != t for n, t in zip(N, T))
        return nt, ['fam:' + case['fam'], 'size:%s' % (8 if p < 256 else 16 if p < 65536 else 32), 'isgb' if case['isgb'] else 'computed',
                    'elim' if k else 'drl', 'targets:%d' % len(T), 'zero-nf' if any(not n for n in N) else 'nonzero-nf'] + \
            ['opt' + str(o[0]) for o in case['opts']]
    def shrinks(self, case):
        for j in range(len(case['T'])):
            if len(case['T']) > 1:
                yield dict(case, T=case['T'][:j] + case['T'][j + 1:])
            t = case['T'][j]
            for i in range(len(t)):
                if len(t) > 1:
                    yield dict(case, T=case['T'][:j] + [t[:i] + t[i + 1:]] + case['T'][j + 1:])
        if case['isgb']:
            yield dict(case, isgb=False)
        if 'elim' in case:
            yield {k: v for k, v in case.items() if k != 'elim'}
        yield from gen.shrink_system(case, keep_nv=True)
    def show(self, case):
        vs = vp.varnames(case['nv'])
        return {'input': vp.sys_str(vs, case['p'], gen.dec(case['F'])), 'reduce': [vp.poly_str(t, vs) for t in gen.dec(case['T'])],
                'elim': case.get('elim', 0), 'isgb': case['isgb'], 'opts': case['opts'], 'binary': case['variant']}
PROP = P()
