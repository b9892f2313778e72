"""C14: the input text format: every rendering of a system means the same system."""
import random, re, sys
from fractions import Fraction
import gen, vp, build
import gbp
from gbp import canon
from runner import Prop

sys.set_int_max_str_digits(0)

FEATS = ['long', 'names', 'crlf', 'spaces', 'termlines', 'oneline', 'trailcomma', 'blanklines', 'noeol', 'shuffle', 'factors', 'exp1', 'exp0', 'one',
         'leadzeros', 'unreduced', 'frac', 'zeroterm', 'zeropoly', 'charline', 'scale', 'polyorder']

def names(R, nv):
    k = R.randrange(8)
    if k == 0:
        v = ['x%d' % (i + 1) for i in range(nv)]
    elif k == 1:
        v = ['x' * (i + 1) for i in range(nv)]                 # each a prefix of the next one
    elif k == 2:
        v = ['x' + '1' * i for i in range(nv)]
    elif k == 3:
        v = ['_%c' % (97 + i) for i in range(nv)]
    elif k == 4:
        v = [R.choice('abcXYZ_') + ''.join(R.choice('abcXYZ_0189') for _ in range(R.choice([1, 5, 30, 49, 50, 51, 64, 200, 1000]))) + str(i)
             for i in range(nv)]
    elif k == 5:
        v = ['x[%d]' % i if R.random() < .8 else 'y_{%d}' % i for i in range(nv)]
    elif k == 6:
        v = [R.choice(['e', 'E', 'A', 'theta', 'aux', 'I', 'O', 'nan', 'inf', 'u', 'v', 'w']) + ('' if i == 0 else str(i)) for i in range(nv)]
    else:
        v = ["%s'" % c if R.random() < .3 else c for c in 'zyxwvutsrqponm'[:nv]]
        v += ['a%d' % i for i in range(nv - len(v))]
    R.shuffle(v)
    return v

def render(case):
    """(text of the case, variable names): uses only syntax the documentation and the parser intend to support"""
    p, nv = case['p'], case['nv']
    on = set(case['feat'])
    R = random.Random(case['rs'])
    vs = names(R, nv)
    if 'names' not in on:
        vs = vp.varnames(nv)
    def sp():
        return ' ' * R.choice([0, 1, 1, 2, 5]) if 'spaces' in on else ''
    nl = '\r\n' if 'crlf' in on else '\n'
    def number(c):
        """a textual form of the (nonzero or zero) coefficient c, without sign, and whether it is negative"""
        c = Fraction(c)
        if 'unreduced' in on and p and R.random() < .6:
            k = R.choice([1, -1, 2, -3, 10 ** R.randrange(1, 40), -R.getrandbits(R.choice([31, 32, 33, 63, 64, 65, 200]))])
            c = c + k * p
        num, den = c.numerator, c.denominator
        if 'frac' in on and R.random() < .5:
            if p:
                d = R.choice([2, 3, 4, 7, 12, p + 1, 10 ** 12 + 39, R.getrandbits(70) | 1])
                if d % p:
                    num = num * d + (R.choice([0, 0, 1, -5]) * p)
                    den = d
            else:
                d = R.choice([1, 2, 3, 6, 10, 10 ** 20 + 39])
                num, den = num * d, den * d
        if 'long' in on and R.random() < .1:
            # coefficients of thousands of digits (terms of more than 50000 characters are rejected by the parser)
            d = 10 ** R.choice([90, 300, 1000, 2000, 4090, 4094, 5000, 8190, 12000, 20000]) + 2 * R.getrandbits(60) + 1
            if p and R.random() < .5 and d * p < 10 ** 21000:
                num += den * p * d * R.choice([1, -1])
            elif not p or d % p:
                num, den = num * d, den * d
        neg = num < 0
        s = str(abs(num))
        if 'leadzeros' in on and R.random() < .3:
            s = '0' * R.choice([1, 3]) + s
        if den != 1:
            s += '/' + str(den)
        return neg, s
    def factor(v, k):
        if k == 1 and not ('exp1' in on and R.random() < .7):
            return vs[v]
        return '%s^%s%d' % (vs[v] , '0' if 'leadzeros' in on and R.random() < .3 else '', k)
    def term(c, e, first):
        m = [(v, k) for v, k in enumerate(e) if k or 'exp0' in on and R.random() < .4]
        if 'factors' in on:
            R.shuffle(m)
        fs = [factor(v, k) for v, k in m]
        neg, s = number(c)
        if fs and (c == 1 or c == -1) and not ('one' in on and R.random() < .7):
            s, neg = '', c == -1
        body = ('%s*%s' % (sp(), sp())).join(([s] if s else []) + fs)
        sign = '-' if neg else '' if first else '+'
        return sign, body
    polys = [dict(f) for f in gen.dec(case['F'])]
    if 'scale' in on:
        for i, f in enumerate(polys):
            if R.random() < .5:
                s = R.randrange(1, p) if p else Fraction(R.choice([1, -1, 2, 3, -7, 10 ** 9 + 7]), R.choice([1, 1, 2, 3, 12345678901]))
                polys[i] = {e: (c * s % p if p else c * s) for e, c in f.items()}
    if 'polyorder' in on:
        R.shuffle(polys)
    if 'zeropoly' in on:
        polys.insert(R.randrange(len(polys) + 1), {})
    out = []
    for f in polys:
        ts = list(f.items())
        if 'shuffle' in on:
            R.shuffle(ts)
        if 'zeroterm' in on and R.random() < .7:
            e = tuple(R.choice([0, 0, 1, 2, 9]) for _ in range(nv))
            if e not in f:
                ts.insert(R.randrange(len(ts) + 1), (e, (p * R.choice([0, 1, -2]) if 'unreduced' in on else 0)))
        if not ts:
            ts = [((0,) * nv, 0)]
        s = ''
        for i, (e, c) in enumerate(ts):
            sign, body = term(c, e, i == 0)
            if i and 'termlines' in on and R.random() < .4:
                s += nl
            s += sp() + sign + sp() + body
        out.append(s)
    hd = (sp() + ',' + sp()).join(vs)
    cl = (sp() + str(p) + sp()) if 'charline' in on else str(p)
    body = ''
    for i, s in enumerate(out):
        body += s
        last = i == len(out) - 1
        if not last or 'trailcomma' in on:
            body += sp() + ','
        if not last and not ('oneline' in on and R.random() < .5):
            body += nl
            if 'blanklines' in on and R.random() < .5:
                body += nl * R.choice([1, 2])
    if 'noeol' not in on:
        body += nl
        if 'blanklines' in on:
            body += nl + sp() + nl
    return hd + nl + cl + nl + body, vs

class P(Prop):
    id = 'C14'
    builds = ['oracle'] + ['msolve:' + v for v in build.variants()]
    quick_cases = 12000
    thorough_cases = 600000
    rule = ('systems from 17 families over F_p and the rationals, rendered with random subsets of 22 textual variations (white space, line '
            'breaks, CRLF, several polynomials per line, trailing comma, order of terms and factors, exponents 0 and 1, explicit coefficient 1, '
            'leading zeros, unreduced, negative and rational coefficients of any size (up to 20000 digits), zero terms and polynomials, scaling, long and prefix related '
            'variable names); non-trivial = at least 3 variations at once and a basis with at least 2 elements')
    assumptions = ['repeated monomials in a polynomial, repeated variables in a monomial, a sign in front of the first term other than -, tabs and '
                   'coefficients after the first variable are not part of the input format']
    def gen(self, R, i, tier):
        p = 0 if R.random() < .35 else gen.prime(R)
        fam, nv, F = gen.system(R, p, fam=R.choice([f for f in gen.FAMILIES if f not in ('manyvars', 'named')]))
        F = [f for f in F if f]
        n = R.choice([1, 2, 3, 4, 6, 8, 12])
        return {'fam': fam, 'p': p, 'nv': nv, 'F': gen.enc(F), 'feat': sorted(R.sample(FEATS, n)), 'rs': R.getrandbits(40), 'opts': [],
                't': R.randrange(10 ** 6), 'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        p, nv = case['p'], case['nv']
        F = gen.dec(case['F'])
        text, vs = render(case)
        q = p or vp.BIGP[0]
        try:
            G = vp.ref_gb([vp.poly_modp(f, q) for f in F], q, nv)
        except ZeroDivisionError:
            return False, ['skipped:denominator']
        if not gbp.in_domain(F, G, nv):
            return False, ['skipped:huge-exponents-or-quotient']
        raw = text.encode()
        r = vp.expect_ok(vp.run_msolve('', ['-g', 2], case['variant'], t=case['t'], raw=raw))
        H = vp.parse_gb(r.out, vs)
        if p:
            E = G
            H = H
        else:
            w = vp.varnames(nv)
            r0 = vp.expect_ok(vp.run_msolve(vp.sys_str(w, p, F), ['-g', 2], case['variant'], t=case['t']))
            E = vp.parse_gb(r0.out, w)
        if canon(H) != canon(E):
            raise vp.Bad('the rendering is understood as another system: basis %s, expected %s' %
                         ([vp.poly_str(h, vs) for h in H][:6], [vp.poly_str(g, vs) for g in E][:6]))
        hd = [l for l in r.out.split('\n') if l.startswith('#variable order:')]
        if hd and [v.strip() for v in hd[0][len('#variable order:'):].split(',')] != vs:
            raise vp.Bad('variable names printed as %s' % hd[0][:300])
        return len(case['feat']) >= 3 and len(G) >= 2, ['fam:' + case['fam'], 'char0' if not p else 'charp'] + ['feat:' + f for f in case['feat']]
    def shrinks(self, case):
        for f in case['feat']:
            yield dict(case, feat=[g for g in case['feat'] if g != f])
        yield from gen.shrink_system(case, keep_nv=True)
        for rs in range(5):
            if case['rs'] > 4:
                yield dict(case, rs=rs)
    def show(self, case):
        return {'text': render(case)[0][:1500], 'feat': case['feat'], 'binary': case['variant']}
PROP = P()
