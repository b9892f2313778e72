"""Shared machinery: bases over prime fields."""
import gen, vp, build
from runner import Prop

def canon(G):
    return sorted(sorted(g.items()) for g in G)

def gb_options(R, p, prob=False):
    o = []
    if R.random() < .5:
        ls = [1, 2]
        if p > (1 << 26) or prob and p > 200:
            ls += [42, 44]
        o.append(['-l', R.choice(ls)])
    if R.random() < .4:
        o.append(['-s', R.choice([1, 2, 3, 5, 8, 12, 20])])
    if R.random() < .3:
        o.append(['-m', R.choice([0, 1, 2, 3, 10, 100])])
    if R.random() < .15:
        o.append(['-u', R.choice([0, 1, 2, 5])])
    if R.random() < .15:
        o.append(['-r', R.choice([0, 1])])
    if R.random() < .03:
        o.append(['-v', R.choice([1, 2])])
    return o

def in_domain(F, G, nv):
    """exponents are 16 bit in the engine and a basis of a finite-dimensional quotient is materialised even for -g 2:
    stay away from both resource limits"""
    if max((max(e) for f in F + G for e in f), default=0) > 3000:
        return False
    prod = 1
    key = vp.mkey()
    for g in G:
        e = vp.lead(g, key)
        nz = [x for x in e if x]
        if len(nz) == 1:
            prod *= nz[0]
    return prod <= 100000

def check_order(H, k=0):
    """elements are printed by increasing leading monomial, terms by decreasing monomial"""
    key = vp.mkey(k)
    lm = [key(vp.lead(h, key)) for h in H if h]
    if lm != sorted(lm):
        raise vp.Bad('elements are not printed by increasing leading monomial')
    for h in H:
        t = [key(e) for e in h]
        if t != sorted(t, reverse=True):
            raise vp.Bad('terms are not printed in decreasing order')

class GBP(Prop):
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    elim = False
    prime_cls = None
    assumptions = ['the reference Buchberger implementation in lib/oracle.cpp is correct',
                   'the probabilistic linear algebra (-l 42/44) may lose rows with probability about 1/p: for 200 < p < 2^26 a wrong basis counts if 13 random choices in a row give one']

    def gen(self, R, i, tier):
        p = gen.prime(R, self.prime_cls)
        fam, nv, F = gen.system(R, p, big=(R.random() < (.3 if tier == 'thorough' else .1)))
        c = {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': gb_options(R, p, True), 't': R.randrange(10 ** 6),
             'variant': R.choice([build.native()] + build.variants())}
        if self.elim:
            if nv < 2:
                return None
            c['elim'] = R.choice([1, 1, 2, nv - 1, R.randint(1, nv - 1)])
            c['elim'] = max(1, min(nv - 1, c['elim']))
        return c

    def check(self, case):
        p, nv, k = case['p'], case['nv'], case.get('elim', 0)
        F = gen.dec(case['F'])
        G = vp.ref_gb(F, p, nv, k)
        if not in_domain(F, G, nv):
            return False, ['skipped:huge-exponents-or-quotient']
        vs = vp.varnames(nv)
        opts = ['-g', 2] + (['-e', k] if k else []) + sum(case['opts'], [])
        txt = vp.sys_str(vs, p, F)
        try:
            self.run(txt, opts, case['variant'], case.get('t', 1), vs, G, k)
        except vp.Bad:
            # probabilistic linear algebra loses a row with probability about 1/p: wrong for every random choice is wrong
            if not (p < (1 << 26) and any(o[0] == '-l' and o[1] > 2 for o in case['opts'])):
                raise
            for i in range(1, 13):
                try:
                    self.run(txt, opts, case['variant'], case.get('t', 1) + i, vs, G, k)
                except vp.Bad:
                    if i == 12:
                        raise
                    continue
                return False, ['probabilistic-failure']
        nt = len(G) >= 2 and canon(G) != canon(F)
        L = ['fam:' + case['fam'], 'size:%s' % (8 if p < 256 else 16 if p < 65536 else 32),
             'gb>=10' if len(G) >= 10 else 'gb<10', 'unit' if G == [{(0,) * nv: 1}] else 'proper']
        L += ['opt' + str(o[0]) + (str(o[1]) if o[0] == '-l' else '') for o in case['opts']]
        L.append('bin:' + case['variant'])
        if k:
            L.append('elimideal-nonzero' if any(all(not any(e[:k]) for e in g) for g in G) else 'elimideal-zero')
        return nt, L

    def run(self, txt, opts, variant, t, vs, G, k):
        r = vp.expect_ok(vp.run_msolve(txt, opts, variant, t=t))
        H = vp.parse_gb(r.out, vs)
        if canon(G) != canon(H):
            raise vp.Bad('basis differs from the reduced basis: got %s expected %s' %
                         ([vp.poly_str(h, vs) for h in H][:6], [vp.poly_str(g, vs) for g in G][:6]))
        check_order(H, k)

    def shrinks(self, case):
        return gen.shrink_system(case, keep_nv='elim' in case)

    def show(self, case):
        vs = vp.varnames(case['nv'])
        d = {'input': vp.sys_str(vs, case['p'], gen.dec(case['F'])), 'opts': case['opts'], 'binary': case['variant'],
             'family': case['fam']}
        if 'elim' in case:
            d['elim'] = case['elim']
        return d
