"""C18: leading ideals (-g 1), truncated bases (-N) and the header of printed bases."""
import gen, vp, build
from gbp import canon, gb_options, in_domain, check_order
from gbq import FAM_Q, opts_q, adversarial, monic_modp
from runner import Prop

def header(out):
    h = {}
    for l in out.split('\n'):
        if l.startswith('#') and ':' in l:
            k, v = l[1:].split(':', 1)
            h[k.strip()] = v.strip()
    h['title'] = out.split('\n', 1)[0]
    return h

class P(Prop):
    id = 'C18'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 20000
    thorough_cases = 1000000
    rule = ('systems over prime fields and the rationals from 17 families, printed as leading ideal, truncated basis or full basis, with and without '
            'elimination; non-trivial = at least 2 leading monomials')
    assumptions = ['the reference Buchberger implementation in lib/oracle.cpp is correct; over the rationals it works modulo two 60 bit primes']
    def gen(self, R, i, tier):
        p = gen.prime(R) if R.random() < .5 else 0
        if p:
            fam, nv, F = gen.system(R, p)
            opts = gb_options(R, p)
            opts = [o for o in opts if o[0] != '-r']
        else:
            fam, nv, F = gen.system(R, 0, fam=R.choice(FAM_Q), style=R.choice(['unit', 'small', 'small', 'mid', 'rat']))
            opts = opts_q(R)
        t = gen.clock(R)
        if not p and F and R.random() < .1:
            F = adversarial(R, F, nv, t)
        mode = R.choice(['lead', 'lead', 'head'] + ['trunc', 'trunc', 'leadtrunc'] * (not p))
        F = [f for f in F if f]
        if not F:
            return None
        return {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(gen.zeros(R, F)), 'opts': opts, 't': t, 'mode': mode, 'n': R.choice([1, 1, 2, 3, 4, 6, 10, 1000]),
                'elim': R.randint(1, nv - 1) if nv > 1 and R.random() < .35 else 0, 'names': R.random() < .3,
                'variant': R.choice([build.native()] + build.variants())}
    def expected(self, case, F, P):
        nv, k, p = case['nv'], case['elim'], case['p']
        G = full = vp.ref_gb(F, p or P, nv, k)
        if k and not p:
            G = [g for g in G if all(not any(e[:k]) for e in g)]
        key = vp.mkey(k)
        G = sorted(G, key=lambda g: key(vp.lead(g, key)))
        if 'trunc' in case['mode']:
            G = G[:case['n']]
        return full, G
    def check(self, case):
        nv, k, p, mode = case['nv'], case['elim'], case['p'], case['mode']
        F = gen.dec(case['F'])
        if not any(F):
            return False, ['skipped:zero-ideal']
        vs = ['a%s_%d' % ('bcd'[i % 3] * (i % 4), i) for i in range(nv)] if case['names'] else vp.varnames(nv)
        full, G = self.expected(case, F, vp.BIGP[0])
        if not in_domain(F, full, nv):
            return False, ['skipped:huge']
        opts = ['-g', 1 if 'lead' in mode else 2] + (['-e', k] if k else []) + (['-N', case['n']] if 'trunc' in mode else []) + sum(case['opts'], [])
        r = vp.expect_ok(vp.run_msolve(vp.sys_str(vs, p, F), opts, case['variant'], t=case['t']))
        H = vp.parse_gb(r.out, vs)
        if not p and len(H) == 1 and not any(H[0].values()):
            H = []
        key = vp.mkey(k)
        if 'lead' in mode:
            for h in H:
                if len(h) != 1 or list(h.values()) != [1]:
                    raise vp.Bad('leading ideal contains %s' % vp.poly_str(h, vs))
            got, want = [list(h)[0] for h in H], [vp.lead(g, key) for g in G]
            if got != want:
                _, G2 = self.expected(case, F, vp.BIGP[1])
                if p or got != [vp.lead(g, key) for g in G2]:
                    raise vp.Bad('leading monomials %s, expected %s' % (got[:12], want[:12]))
        else:
            M = (H if p else monic_modp(H, vp.BIGP[0], key)) if all(H) else None
            if M is None or [sorted(h.items()) for h in M] != [sorted(g.items()) for g in G]:
                _, G2 = self.expected(case, F, vp.BIGP[1])
                M2 = monic_modp(H, vp.BIGP[1], key) if not p and all(H) else None
                if M2 is None or [sorted(h.items()) for h in M2] != [sorted(g.items()) for g in G2]:
                    raise vp.Bad('elements %s, expected leading monomials %s' % ([vp.poly_str(h, vs)[:200] for h in H][:6], [vp.lead(g, key) for g in G][:8]))
            check_order(H, k)
        h = header(r.out)
        t = ('#Leading ideal data' if 'lead' in mode else '#Truncated reduced Groebner basis data' if 'trunc' in mode else '#Reduced Groebner basis data')
        if h['title'] != t:
            raise vp.Bad('header %r' % h['title'])
        if h.get('field characteristic') != str(p):
            raise vp.Bad('header gives characteristic %s' % h.get('field characteristic'))
        names = [x.strip() for x in h.get('variable order', '').split(',')]
        if names != (vs[k:] if k and not p else vs):
            raise vp.Bad('header gives variables %s' % names)
        want = 'graded reverse lexicographical'
        if k and p:
            want = 'eliminating first %s, blocks: graded reverse lexicographical' % ('variable' if k == 1 else '%d variables' % k)
        if h.get('monomial order') != want:
            raise vp.Bad('header gives order %r' % h.get('monomial order'))
        n = h.get('length of basis', '').split()
        if n[:1] != [str(len(H))]:
            raise vp.Bad('header gives length %s for %d elements' % (n, len(H)))
        return len(G) >= 2, ['mode:' + mode, 'char0' if not p else 'size:%s' % (8 if p < 256 else 16 if p < 65536 else 32), 'elim' if k else 'drl',
                             'cut' if 'trunc' in mode and len(G) == case['n'] else 'whole']
    def excused(self, case):
        return not case['p'] and vp.unlucky_start([f for f in gen.dec(case['F']) if f], case['nv'], case['t'], case['elim'])
    def shrinks(self, case):
        yield from gen.shrink_system(case, keep_nv=bool(case['elim']))
        if case['names']:
            yield dict(case, names=False)
    def show(self, case):
        d = {k: case[k] for k in ('opts', 'mode', 'elim', 'variant')}
        d['input'] = vp.sys_str(vp.varnames(case['nv']), case['p'], gen.dec(case['F']))
        if 'trunc' in case['mode']:
            d['n'] = case['n']
        return d
PROP = P()
