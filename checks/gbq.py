"""Shared machinery: bases over Q."""
import gen, vp, build
from fractions import Fraction
from math import gcd
from runner import Prop
from gbp import canon, in_domain, check_order

FAM_Q = ['sparse', 'sparse', 'dense', 'homog', 'named', 'factor', 'binomial', 'monomial', 'linear', 'many', 'univ',
         'points', 'manyvars', 'mixed', 'const', 'determ', 'quadrics']

def monic_modp(F, P, key):
    out = []
    for f in F:
        g = vp.poly_modp(f, P)
        if not g:
            return None
        i = pow(g[vp.lead(g, key)], -1, P)
        out.append({e: c * i % P for e, c in g.items()})
    return out

def opts_q(R):
    o = []
    if R.random() < .4:
        o.append(['-l', R.choice([1, 2, 2, 42, 44])])
    if R.random() < .3:
        o.append(['-s', R.choice([2, 3, 5, 8, 12, 20])])
    if R.random() < .2:
        o.append(['-m', R.choice([0, 1, 2, 10, 100])])
    if R.random() < .15:
        o.append(['-u', R.choice([0, 1, 2, 5])])
    if R.random() < .03:
        o.append(['-v', R.choice([1, 2])])
    return o

def adversarial(R, F, nv, t):
    """multiplies some coefficients by primes the run is likely to use, so that those primes are bad.
    The very first prime (the one the trace is learned from) is only made bad in the way the code screens for: by dividing
    an input coefficient. A prime that is unlucky in any other way there is the accepted Monte Carlo error of the method."""
    qs = vp.first_primes(t, 4)
    k = R.random()
    F = [dict(f) for f in F]
    if k < .5:
        for _ in range(R.randint(1, 3)):
            f = R.choice(F)
            e = R.choice(list(f))
            f[e] = f[e] * R.choice(qs)
    elif k < .8:
        # two polynomials equal modulo a prime
        f = R.choice(F)
        g = dict(f)
        e = gen.rmon(R, nv, 2)
        g[e] = g.get(e, 0) + R.choice(qs[1:]) * R.choice([1, -1, 3])
        if not g[e]:
            del g[e]
        if g:
            F.append(g)
    else:
        f = R.choice(F)
        e = gen.rmon(R, nv, 2)
        f[e] = f.get(e, 0) + R.choice(qs[1:])
        if not f[e]:
            del f[e]
    return [f for f in F if f]

class GBQ(Prop):
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    elim = False
    assumptions = ['results over Q are compared modulo two random 60-bit primes with an independent reference basis; '
                   'agreement modulo both is taken as equality']
    def gen(self, R, i, tier):
        fam, nv, F = gen.system(R, 0, fam=R.choice(FAM_Q), big=(R.random() < .05))
        t = gen.clock(R)
        adv = R.random() < .2
        if adv:
            F = adversarial(R, F, nv, t)
        c = {'fam': fam, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': opts_q(R), 't': t, 'adv': adv,
             'variant': R.choice([build.native()] + build.variants())}
        if self.elim:
            if nv < 2:
                return None
            c['elim'] = max(1, min(nv - 1, R.choice([1, 1, 2, nv - 1, R.randint(1, nv - 1)])))
        return c

    def reference(self, case, P):
        F = gen.dec(case['F'])
        nv, k = case['nv'], case.get('elim', 0)
        G = vp.ref_gb(F, P, nv, k)
        full = G
        if k:
            G = [g for g in G if all(not any(e[:k]) for e in g)]
        return full, G

    def check(self, case):
        nv, k = case['nv'], case.get('elim', 0)
        F = gen.dec(case['F'])
        if not F:
            raise vp.TooHard()
        full, G = self.reference(case, vp.BIGP[0])
        if not in_domain(F, full, nv):
            return False, ['skipped:huge']
        vs = vp.varnames(nv)
        opts = ['-g', 2] + (['-e', k] if k else []) + sum(case['opts'], [])
        r = vp.expect_ok(vp.run_msolve(vp.sys_str(vs, 0, F), opts, case['variant'], t=case['t']))
        H = vp.parse_gb(r.out, vs)
        if len(H) == 1 and not any(H[0].values()):
            H = []      # the zero ideal is printed as [0]
        key = vp.mkey(k)
        for h in H:
            if any(isinstance(c, Fraction) for c in h.values()):
                raise vp.Bad('non-integer coefficient in basis over Q')
        HP = monic_modp(H, vp.BIGP[0], key) if all(H) else None
        if HP is None or canon(HP) != canon(G):
            full2, G2 = self.reference(case, vp.BIGP[1])
            HP2 = monic_modp(H, vp.BIGP[1], key) if all(H) else None
            if HP2 is None or canon(HP2) != canon(G2):
                raise vp.Bad('basis over Q differs from the reference: got %s; expected leading monomials %s' %
                             ([vp.poly_str(h, vs) for h in H][:6], [vp.lead(g, key) for g in G][:8]))
        check_order(H, k)
        nt = len(G) >= 2 and any(len(g) > 1 for g in G)
        bits = max([abs(c).bit_length() for h in H for c in h.values()] or [0])
        L = ['fam:' + case['fam'], 'bits<=31' if bits <= 31 else 'bits<=128' if bits <= 128 else 'bits>128',
             'gb>=10' if len(G) >= 10 else 'gb<10', 'adv' if case['adv'] else 'noadv',
             'unit' if G == [{(0,) * nv: 1}] else 'zero' if not G else 'proper']
        return nt, L

    def excused(self, case):
        return vp.unlucky_start([f for f in gen.dec(case['F']) if f], case['nv'], case['t'], case.get('elim', 0))

    def shrinks(self, case):
        return gen.shrink_system(case, keep_nv='elim' in case)

    def show(self, case):
        vs = vp.varnames(case['nv'])
        d = {'input': vp.sys_str(vs, 0, gen.dec(case['F'])), 'opts': case['opts'], 'binary': case['variant'],
             'family': case['fam'], 'clock': case['t']}
        if 'elim' in case:
            d['elim'] = case['elim']
        return d
