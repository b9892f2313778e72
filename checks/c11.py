"""C11: saturation over prime fields."""
import gen, vp, build
import gbp
from math import comb
from gbp import canon
from runner import Prop

def saturation(F, f, p, nv, budget=None):
    """reduced basis of <F> : f^infinity by the Rabinowitsch trick (new first variable)"""
    up = lambda g: {(0,) + e: c for e, c in g.items()}
    tf = {(1,) + e: (-c) % p for e, c in f.items()}
    tf[(0,) * (nv + 1)] = 1
    G = vp.ref_gb([up(g) for g in F] + [tf], p, nv + 1, 1, budget=budget)
    return [{e[1:]: c for e, c in g.items()} for g in G if not any(e[0] for e in g)]

def colon(J, f, p, nv):
    """generators of <J> : f  from the intersection of <J> and <f>"""
    up = lambda g, k: {(k,) + e: c for e, c in g.items()}
    gens = [up(g, 1) for g in J] + [{**up(f, 0), **{(1,) + e: (-c) % p for e, c in f.items()}}]
    G = [{e[1:]: c for e, c in g.items()} for g in vp.ref_gb(gens, p, nv + 1, 1) if not any(e[0] for e in g)]
    key = vp.mkey()
    lf = vp.lead(f, key)
    inv = pow(f[lf], -1, p)
    out = []
    for g in G:
        q = {}
        while g:
            l = vp.lead(g, key)
            d = tuple(a - b for a, b in zip(l, lf))
            c = g[l] * inv % p
            q[d] = c
            for e, a in f.items():
                m = tuple(x + y for x, y in zip(e, d))
                v = (g.get(m, 0) - c * a) % p
                if v:
                    g[m] = v
                else:
                    g.pop(m, None)
        out.append(q)
    return out

def small(F, nv):
    """f4sat works with all monomials of the quotient up to the degree of the basis"""
    D = max((sum(e) for f in F for e in f), default=0)
    return comb(nv + D, nv) <= 6000

def incomplete(H, S, f, p, nv):
    """recognises the known incompleteness in positive dimension: the search for h with h*f in the ideal stops below the degree of the
    basis.  Everything else must be right: a reduced basis of an ideal between I and the saturation (checked by the caller), whose
    colon ideal by f has new elements only from the degree of the basis on"""
    key = vp.mkey()
    lms = [vp.lead(h, key) for h in H]
    if all(any(sum(l) == l[i] for l in lms) for i in range(nv)):
        return False
    D = max(sum(l) for l in lms)
    K = vp.ref_gb(colon(H, f, p, nv), p, nv)
    new = [k for k, r in zip(K, vp.ref_nf(H, K, p, nv)) if r]
    return bool(new) and min(sum(vp.lead(k, key)) for k in new) >= D

class P(Prop):
    id = 'C11'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 12000
    thorough_cases = 400000
    rule = ('ideals F from 17 families over F_p with 2^16 < p < 2^31, often multiplied by factors of f, and polynomials f (variables, linear '
            'forms, factors of generators, random, units); non-trivial = the saturation differs from the ideal')
    assumptions = ['the reference computes the saturation by eliminating t from F, 1-t*f']
    def gen(self, R, i, tier):
        while True:
            p = gen.prime(R, R.choice(['32', '32', 'edge']))
            if p > (1 << 16):
                break
        fam, nv, F = gen.system(R, p, fam=R.choice([f for f in gen.FAMILIES if f not in ('highexp', 'manyvars')]))
        F = [f for f in F if f]
        style = R.choice(gen.COEF_P)
        k = R.random()
        if k < .35:
            f = gen.var(nv, R.randrange(nv))
        elif k < .6:
            f = gen.rpoly(R, nv, 1, R.randint(1, 3), p, style)
        elif k < .8:
            f = gen.rpoly(R, nv, 2, R.randint(1, 4), p, style)
        elif k < .9:
            f = dict(R.choice(F))
        else:
            f = gen.mul(gen.var(nv, R.randrange(nv)), gen.rpoly(R, nv, 1, 2, p, style), p)
        if not f:
            return None
        if R.random() < .5:
            # put components inside f = 0
            for j in range(len(F)):
                if R.random() < .5:
                    for _ in range(R.choice([1, 1, 2])):
                        g = gen.mul(F[j], f, p)
                        if len(g) < 40:
                            F[j] = g
        return {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(F), 'f': gen.enc([f])[0], 'opts': gbp.gb_options(R, p), 't': R.randrange(10 ** 6),
                'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        p, nv = case['p'], case['nv']
        F, f = gen.dec(case['F']), gen.dec([case['f']])[0]
        if not f:
            return False, ['skipped:zero']
        G = vp.ref_gb(F, p, nv)
        S = saturation(F, f, p, nv)
        if not gbp.in_domain(F + [f], G, nv) or not gbp.in_domain(F, S, nv) or not small(F + [f] + G + S, nv):
            return False, ['skipped:huge-exponents-or-quotient']
        vs = vp.varnames(nv)
        r = vp.expect_ok(vp.run_msolve(vp.sys_str(vs, p, F + [f]), ['-S', '-g', 2] + sum(case['opts'], []), case['variant'], t=case['t']))
        H = vp.parse_gb(r.out, vs)
        if canon(H) != canon(S):
            nf = lambda A, B: vp.ref_nf(B, A, p, nv)
            if H and canon(vp.ref_gb(H, p, nv)) == canon(H) and not any(nf(F, H)) and not any(nf(H, S)) and incomplete(H, S, f, p, nv):
                return True, ['known:positive-dimensional-degree-bound']
            raise vp.Bad('saturation differs from the reduced basis of I : f^oo: got %s expected %s (basis of I: %s)' %
                         ([vp.poly_str(h, vs) for h in H][:6], [vp.poly_str(g, vs) for g in S][:6], [vp.poly_str(g, vs) for g in G][:6]))
        gbp.check_order(H)
        return canon(S) != canon(G), ['fam:' + case['fam'], 'saturated' if canon(S) == canon(G) else 'unit' if S == [{(0,) * nv: 1}] else 'proper'] + \
            ['opt' + str(o[0]) + (str(o[1]) if o[0] == '-l' else '') for o in case['opts']]
    def shrinks(self, case):
        f = case['f']
        for i in range(len(f)):
            if len(f) > 1:
                yield dict(case, f=f[:i] + f[i + 1:])
            if f[i][0] != 1:
                yield dict(case, f=f[:i] + [[1, f[i][1]]] + f[i + 1:])
        yield from gen.shrink_system(case, keep_nv=True)
    def show(self, case):
        vs = vp.varnames(case['nv'])
        return {'input': vp.sys_str(vs, case['p'], gen.dec(case['F'])), 'f': vp.poly_str(gen.dec([case['f']])[0], vs), 'opts': case['opts'],
                'binary': case['variant']}
PROP = P()
