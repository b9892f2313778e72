"""C17: real root isolation of univariate integer polynomials (library)."""
from fractions import Fraction
import gen, vp, build
from solve import _dy
from runner import Prop

def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r

def from_roots(rs):
    f = [1]
    for r in rs:
        r = Fraction(r)
        f = pmul(f, [-r.numerator, r.denominator])
    return f

def dyadics(R, n):
    s = set()
    while len(s) < n:
        k = R.choice([0, 0, 1, 2, 3, 5, 8, 20])
        s.add(Fraction(R.randint(-(4 << k), 4 << k), 1 << k))
    return list(s)

def rnd(R, d, bits):
    f = [R.randint(-(1 << bits), 1 << bits) for _ in range(d + 1)]
    while not f[-1]:
        f[-1] = R.randint(-(1 << bits), 1 << bits)
    return f

def compose_affine(f, a, b):
    """f(a x + b), a, b integers"""
    r = [0]
    for c in reversed(f):
        r = pmul(r, [b, a])
        r[0] += c
    return r

def gen_poly(R, tier):
    fam = R.choice(['dyadic', 'dyadic', 'mixed', 'random', 'random', 'sparse', 'mignotte', 'wilkinson', 'chebyshev', 'close',
                    'rational', 'bigroots', 'tiny', 'power2', 'noreal', 'resultantlike', 'zero', 'longdeg', 'trunc', 'blocks', 'blocks', 'cluster', 'cluster'] + (['high'] if R.random() < .2 else []))
    if fam == 'dyadic':
        f = from_roots(dyadics(R, R.randint(1, 9)))
    elif fam == 'mixed':
        f = pmul(from_roots(dyadics(R, R.randint(1, 5))), rnd(R, R.randint(1, 6), R.choice([1, 3, 8, 40])))
    elif fam == 'random':
        f = rnd(R, R.choice([1, 2, 3, 4, 6, 10, 17, 30]), R.choice([1, 2, 5, 20, 64, 200]))
    elif fam == 'sparse':
        d = R.choice([3, 7, 16, 33, 64, 100])
        f = [0] * (d + 1)
        for _ in range(R.randint(1, 4)):
            f[R.randrange(d + 1)] = R.randint(-50, 50)
        f[d] = R.choice([1, -1, 3, 7])
        f[0] = f[0] or R.choice([-1, 1, -5, 0])
    elif fam == 'mignotte':
        d = R.choice([3, 5, 8, 13, 20])
        a = R.choice([3, 10, 100, 2 ** 10, 2 ** 20 + 1])
        f = [0] * (d + 1)
        f[d] = 1
        for i, c in enumerate(pmul([-1, a], [-1, a])):
            f[i] -= 2 * c
    elif fam == 'wilkinson':
        k = R.randint(2, 14)
        s = R.randint(-10, 10)
        f = from_roots([Fraction(s + i, R.choice([1, 1, 1, 3])) for i in range(k)])
    elif fam == 'chebyshev':
        a, b = [1], [0, 1]
        for _ in range(R.randint(1, 24)):
            c = pmul([0, 2], b)
            for i, x in enumerate(a):
                c[i] -= x
            a, b = b, c
        f = b
    elif fam == 'close':
        r = Fraction(R.randint(-40, 40), R.choice([1, 2, 3, 4, 7, 16]))
        e = Fraction(1, R.choice([1 << 10, 1 << 33, 3 ** 20, 10 ** 20, 1 << 64, 1 << 130]))
        f = from_roots([r, r + e] + ([r - e] if R.random() < .4 else []) + ([r + 2 * e] if R.random() < .2 else []))
        if R.random() < .5:
            f = pmul(f, rnd(R, R.randint(1, 3), 4))
    elif fam == 'rational':
        f = from_roots(set(Fraction(R.randint(-30, 30), R.randint(1, 12)) for _ in range(R.randint(1, 8))))
    elif fam == 'bigroots':
        f = from_roots(set(R.choice([-1, 1]) * (R.randint(1, 9) << R.choice([3, 30, 64, 100, 300])) + R.randint(-1, 1) for _ in range(R.randint(1, 5))))
    elif fam == 'tiny':
        f = from_roots(set(Fraction(R.choice([-1, 1]) * R.randint(1, 9), (1 << R.choice([3, 30, 64, 130])) + R.randint(0, 1)) for _ in range(R.randint(1, 5))))
    elif fam == 'power2':
        # integer powers of two and their opposites: roots on bisection points and at the root bound
        f = from_roots(set(R.choice([-1, 1]) * Fraction(2) ** R.randint(-6, 9) for _ in range(R.randint(1, 6))))
        if R.random() < .5:
            f = pmul(f, R.choice([[1, 0, 1], [-2, 0, 1], [1, 1, 1], [-3, 0, 1], [2, 0, -1]]))
    elif fam == 'noreal':
        f = [1]
        for _ in range(R.randint(1, 5)):
            f = pmul(f, [R.randint(1, 50), 0, R.randint(1, 9)])
        f = compose_affine(f, 1, R.randint(-9, 9))
    elif fam == 'resultantlike':
        f = rnd(R, R.choice([4, 8, 12]), 3)
        g = compose_affine(f, -1, R.randint(-3, 3))
        f = pmul(f, g)
    elif fam == 'zero':
        f = pmul([0, 1], rnd(R, R.randint(0, 8), R.choice([1, 4, 30])))
        if R.random() < .3:
            f = pmul(f, [0, 1])
    elif fam in ('blocks', 'high'):
        # degrees of the recursive Taylor shift, with blocks of zeros, large powers of two or large coefficients
        d = R.randint(10, 90) if fam == 'blocks' else R.choice([257, 258, 300, 384, 511, 512, 513, 520, 600])
        f, b = [], 1 << R.randint(0, 5 if fam == 'blocks' else 8)
        while len(f) <= d:
            k = R.choice([1, 1, 2, 5, 30, 100]) if fam == 'blocks' else R.choice([1, 1, 2, 5, 20])
            z, sh = R.choice([0, 0, .3, .8, .95, 1]), R.choice([0, 0, 3, 70] if fam == 'blocks' else [0, 0, 3, 20])
            f += [0 if R.random() < z else R.choice([-1, 1]) * R.randint(1, 1 << k) << sh for _ in range(b)]
        f = f[:d + 1]
        f[0] = f[0] or R.choice([1, -1, 3])
        f[d] = f[d] or R.choice([1, -1, 5])
        if R.random() < .4:
            f = pmul(f, from_roots(dyadics(R, R.randint(1, 4))))
    elif fam == 'cluster':
        # several roots (real or not) close to a dyadic number, times a polynomial of larger degree
        f = rnd(R, R.choice([4, 8, 12, 16, 25, 40]), R.choice([1, 4, 20, 60]))
        for _ in range(R.choice([1, 1, 2])):
            k = R.choice([0, 0, 0, 1, 3])
            c, m, e = R.randint(-4 << k, 4 << k), R.randint(1, 5), R.choice([10, 30, 60, 64, 100, 130, 200, 300])
            g = [1]
            for _ in range(m):
                g = pmul(g, [-c, 1 << k])
            g = [x << e for x in g]
            for j in range(R.choice([1, 1, m, m])):
                g[j] += R.randint(-9, 9)
            f = pmul(f, g)
    elif fam == 'longdeg':
        d = R.choice([40, 60, 90] + ([150, 260] if tier == 'thorough' else []))
        f = rnd(R, d, R.choice([1, 8, 40]))
    else:
        # truncated exponential: few real roots, coefficients of very different size
        d = R.randint(3, 25)
        f = [1]
        for i in range(1, d + 1):
            f = [c * i for c in f] + [R.choice([1, 1, -1])]
    if R.random() < .2:
        f = compose_affine(f, R.choice([1, 2, 3, -1, -5, 8]), R.randint(-20, 20))
    if R.random() < .1:
        k = R.choice([2, -3, 1 << 40, -(1 << 70) + 1])
        f = [c * k for c in f]
    if R.random() < .1:
        f = f[::-1]
    while f and f[-1] == 0:
        f.pop()
    return fam, f

def fgcd(a, b):
    """gcd over Q by a modular test is not enough here: primitive euclidean remainder sequence"""
    from math import gcd
    def prim(x):
        g = 0
        for c in x:
            g = gcd(g, c)
        return [c // g for c in x] if g else x
    a, b = prim(a), prim(b)
    while b:
        while len(a) >= len(b):
            l, m = a[-1], b[-1]
            s = len(a) - len(b)
            a = [c * m for c in a]
            for i, x in enumerate(b):
                a[s + i] -= l * x
            while a and a[-1] == 0:
                a.pop()
            a = prim(a)
        a, b = b, a
    return a

def exact_div(a, b):
    q = [0] * (len(a) - len(b) + 1)
    a = [Fraction(x) for x in a]
    for s in range(len(a) - len(b), -1, -1):
        c = a[s + len(b) - 1] / b[-1]
        q[s] = c
        for i, x in enumerate(b):
            a[s + i] -= c * x
    m = 1
    for c in q:
        m = m * c.denominator // __import__('math').gcd(m, c.denominator)
    return [int(c * m) for c in q]

P1 = 2305843009213693951
def modsf(f):
    import solve
    d = [k * c for k, c in enumerate(f)][1:]
    return len(f) <= 2 or f[-1] % P1 and len(solve._trim([c % P1 for c in solve.polygcd([c % P1 for c in f], [c % P1 for c in d], P1)])) == 1
def squarefree(f):
    """f made square-free"""
    if modsf(f):
        return f
    d = [k * c for k, c in enumerate(f)][1:]
    return exact_div(f, fgcd(list(f), d))

def sgn(f, x):
    """sign of f(x) for dyadic x = n/2^k"""
    n, k = x.numerator, x.denominator.bit_length() - 1
    v = 0
    d = len(f) - 1
    for i in range(d, -1, -1):
        v = v * n + (f[i] << (k * (d - i)))
    return (v > 0) - (v < 0)

class P(Prop):
    id = 'C17'
    builds = ['oracle'] + ['hus:' + v for v in build.variants()] + ['husmall:' + build.native()]
    quick_cases = 20000
    thorough_cases = 400000
    rule = ('univariate square-free integer polynomials from 20 families (dyadic and rational roots, clusters, Mignotte, Wilkinson, '
            'Chebyshev, huge and tiny roots, sparse, random), degree <= 100 and some of 257 to 600 (with the cut-off 256 of the recursive Taylor shift as it is, or lowered to 5 so that small degrees get there), precision 1..400, 1 or 2 threads; '
            'non-trivial = at least 2 real roots')
    assumptions = ['the number of real roots comes from a Sturm sequence (FLINT), everything else is checked exactly by sign changes']
    def gen(self, R, i, tier):
        fam, f = gen_poly(R, tier)
        if len(f) < 2:
            return None
        f = squarefree(f) if len(f) < 60 else f if modsf(f) else []
        if len(f) < 2:
            return None
        return {'fam': fam, 'f': f, 'prec': R.choice([1, 4, 16, 32, 64, 64, 100, 128, 200, 400]), 'nt': R.choice([1, 1, 1, 2]), 't': R.randrange(1000), 'small': R.choice([0, 1]) if fam != 'high' else 0,
                'variant': R.choice([build.native()] + build.variants())}
    def check(self, case):
        f = case['f']
        v = case['variant']
        exe = vp.BIN['hus:' + v] if not case.get('small') else vp.BIN['husmall:' + (v if v.endswith((':sched', ':asan')) else build.native())]
        inp = '%d %d %d %s\n' % (case['prec'], case['nt'], len(f) - 1, ' '.join(map(str, f)))
        r = vp.expect_ok(vp.run_cmd([exe], None, case['variant'], case['t'], stdin=inp.encode(), omp=case['nt']))
        l = r.stdout.split('\n')
        npos, nneg = map(int, l[0].split())
        iv = []
        for x in l[1:1 + npos + nneg]:
            n, k, ex = map(int, x.split())
            s = Fraction(2) ** -k
            iv.append((n * s, n * s if ex else (n + 1) * s, ex))
        nreal = int(vp.oracle('nreal %d %s' % (len(f), ' '.join(map(str, f)))))
        if npos + nneg != nreal:
            raise vp.Bad('%d roots reported, the polynomial has %d' % (npos + nneg, nreal))
        g = f
        for lo, hi, ex in iv:
            if ex:
                if sgn(f, lo):
                    raise vp.Bad('%s is reported as an exact root but is none' % lo)
                g = exact_div(g, [-lo.numerator, lo.denominator])
        if len(set(lo for lo, hi, ex in iv if ex)) != sum(1 for x in iv if x[2]):
            raise vp.Bad('an exact root is reported twice')
        last = None
        for i, (lo, hi, ex) in enumerate(iv):
            if last is not None and (lo < last[1] or (lo == last[1] and ex and last[2])):
                raise vp.Bad('intervals overlap or are not sorted: %s' % iv)
            last = (lo, hi, ex)
            if not ex and len(g) > 1 and sgn(g, lo) * sgn(g, hi) >= 0 or not ex and len(g) == 1:
                raise vp.Bad('no sign change over [%s, %s]' % (lo, hi))
            if not ex and hi - lo > Fraction(1, 1 << case['prec']):
                raise vp.Bad('interval [%s, %s] is wider than 2^-%d' % (lo, hi, case['prec']))
            if i < nneg and hi > 0 or i >= nneg and lo < 0:
                raise vp.Bad('wrong number of negative roots: %d (%s)' % (nneg, iv))
        return nreal >= 2, ['fam:' + case['fam'], 'real:%s' % (nreal if nreal < 5 else '5+'), 'exact' if any(x[2] for x in iv) else 'inexact', 'cut-off:%d' % (5 if case.get('small') else 256),
                            'deg<10' if len(f) <= 10 else 'deg<40' if len(f) <= 40 else 'deg>=40']
    def shrinks(self, case):
        f = case['f']
        for c in ({'small': 0}, {'nt': 1}, {'prec': 1}, {'prec': 64}):
            if any(case[k] != v for k, v in c.items()):
                yield dict(case, **c)
        for i in range(len(f)):
            for v in (0, f[i] // 2, f[i] - 1 if f[i] > 0 else f[i] + 1):
                if f[i] and v != f[i]:
                    h = list(f)
                    h[i] = v
                    while h and h[-1] == 0:
                        h.pop()
                    if len(h) >= 2 and len(squarefree(h)) == len(h):
                        yield dict(case, f=h)
        if len(f) > 2:
            for h in (f[1:], f[:-1]):
                while h and h[-1] == 0:
                    h = h[:-1]
                if len(h) >= 2 and len(squarefree(h)) == len(h):
                    yield dict(case, f=h)
    def show(self, case):
        return {k: case[k] if k != 'f' else str(case[k])[:300] for k in case}
PROP = P()
