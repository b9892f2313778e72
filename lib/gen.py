"""Generators of polynomial systems and the structural shrinker."""
from fractions import Fraction
import vp

# ------------------------------------------------------------ JSON <-> dict
def enc(F):
    return [[[c if isinstance(c, int) else str(c), list(e)] for e, c in f.items()] for f in F]

def dec(J):
    out = []
    for f in J:
        d = {}
        for c, e in f:
            d[tuple(e)] = c if isinstance(c, int) else Fraction(c)
        out.append({e: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for e, c in d.items()})
    return out

# ------------------------------------------------------------ dict arithmetic
def add(f, g, c=1, p=0):
    r = dict(f)
    for e, x in g.items():
        v = r.get(e, 0) + c * x
        if p:
            v %= p
        if v:
            r[e] = v
        else:
            r.pop(e, None)
    return r

def mul(f, g, p=0):
    r = {}
    for e, x in f.items():
        for k, y in g.items():
            m = tuple(a + b for a, b in zip(e, k))
            v = r.get(m, 0) + x * y
            if p:
                v %= p
            r[m] = v
    return {e: c for e, c in r.items() if c}

def const(nv, c):
    return {(0,) * nv: c} if c else {}

def var(nv, i, k=1):
    return {tuple(k if j == i else 0 for j in range(nv)): 1}

def powp(f, k, nv, p=0):
    r = const(nv, 1)
    for _ in range(k):
        r = mul(r, f, p)
    return r

def subst(f, images, nv, p=0):
    """f(images[0],...)"""
    r = {}
    cache = {}
    for e, c in f.items():
        m = const(nv, c)
        for i, k in enumerate(e):
            if k:
                if (i, k) not in cache:
                    cache[(i, k)] = powp(images[i], k, nv, p)
                m = mul(m, cache[(i, k)], p)
        r = add(r, m, 1, p)
    return r

def redp(F, p):
    out = []
    for f in F:
        g = {e: c % p for e, c in f.items() if c % p}
        if g:
            out.append(g)
    return out

# ------------------------------------------------------------ primes
def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n

def prev_prime(n):
    n -= 1
    while not is_prime(n):
        n -= 1
    return n

EDGE_PRIMES = [2, 3, 5, 7, 11, 13, 31, 101, 127, 131, 191, 241, 251, 257, 263, 509, 521, 1021, 8191, 16381, 16411,
               32749, 32771, 49157, 65497, 65519, 65521, 65537, 65539, 131071, 131101, 1048583, 16777213, 16777259,
               536870909, 1073741789, 1073741827, 1303905301, 2147483629, 2147483647]

def prime(R, cls=None):
    cls = cls or R.choice(['8', '8', '16', '16', '32', '32', '32', 'edge'])
    if cls == '8':
        return R.choice([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 101, 113, 127, 131, 137, 191, 211, 241, 251])
    if cls == '16':
        return next_prime(R.choice([256, 300, 1000, 5000, 32000, 32768, 40000, 60000, 65000, 65500]) + R.randrange(15)) \
            if R.random() < .7 else R.choice([257, 32749, 32771, 65497, 65519, 65521])
    if cls == '32':
        k = R.random()
        if k < .2:
            return R.choice([65537, 65539, 131071, 1048583])
        if k < .4:
            return R.choice([2147483647, 2147483629, 1073741827, 1073741789])
        return prev_prime(R.randrange(1 << R.randint(17, 30), 2147483647))
    return R.choice(EDGE_PRIMES)

# clock values whose first random prime is one of the last ones below the bound where msolve starts again from 2^30
EDGE_CLOCKS = [605006, 639427, 1587314, 2383308, 2807164, 3479549, 4901969, 6161183, 6259414, 8206088, 8601503, 8606642, 11627008]

def clock(R):
    return R.choice(EDGE_CLOCKS) if R.random() < .04 else R.randrange(10 ** 9)

# ------------------------------------------------------------ coefficients
def coef(R, p, style):
    """nonzero coefficient"""
    if p:
        if style == 'unit':
            return R.choice([1, p - 1]) if p > 2 else 1
        if style == 'small':
            c = R.choice([1, 1, 2, 3, -1, -2, 5, 7]) % p
            return c or 1
        if style == 'edge':
            c = R.choice([1, 2, p - 1, p - 2, p // 2, p // 2 + 1, (p - 1) // 3]) % p
            return c or 1
        return R.randrange(1, p)
    if style == 'unit':
        return R.choice([1, -1])
    if style == 'small':
        return R.choice([1, 1, -1, 2, -2, 3, -3, 4, 5, -7, 10])
    if style == 'big':
        return (R.getrandbits(R.choice([20, 31, 32, 33, 64, 100])) | 1) * R.choice([1, -1])
    if style == 'rat':
        c = Fraction(R.choice([1, -1, 2, -3, 5, 7, 12, -11]), R.choice([1, 2, 3, 4, 7, 9, 10]))
        return int(c) if c.denominator == 1 else c
    c = R.randint(1, 200) * R.choice([1, -1])
    return c

COEF_P = ['unit', 'small', 'small', 'edge', 'full', 'full', 'full']
COEF_0 = ['unit', 'small', 'small', 'mid', 'mid', 'big', 'rat']

def rmon(R, nv, d, exact=False, sup=None):
    k = d if exact else R.randint(0, d)
    e = [0] * nv
    sup = sup or range(nv)
    for _ in range(k):
        e[R.choice(sup)] += 1
    return tuple(e)

def rpoly(R, nv, d, nt, p, style, exact=False):
    f = {}
    for _ in range(nt):
        f[rmon(R, nv, d, exact)] = coef(R, p, style)
    return f

def zeros(R, F, prob=.06):
    """now and then inserts zero polynomials among the generators"""
    if any(F) and R.random() < prob:
        F = list(F)
        for _ in range(R.choice([1, 1, 2])):
            F.insert(R.randint(0, len(F)), {})
    return F

# ------------------------------------------------------------ named families
def katsura(n):
    nv = n + 1
    F = []
    l = const(nv, -1)
    for i in range(-n, n + 1):
        l = add(l, var(nv, abs(i)))
    F.append(l)
    for m in range(n):
        f = {}
        for i in range(-n, n + 1):
            j = m - i
            if -n <= j <= n:
                f = add(f, mul(var(nv, abs(i)), var(nv, abs(j))))
        F.append(add(f, var(nv, m), -1))
    return nv, F

def cyclic(n):
    F = []
    for k in range(1, n):
        f = {}
        for i in range(n):
            e = [0] * n
            for j in range(k):
                e[(i + j) % n] += 1
            f[tuple(e)] = f.get(tuple(e), 0) + 1
        F.append(f)
    F.append(add({(1,) * n: 1}, const(n, -1)))
    return n, F

def noon(n):
    F = []
    for i in range(n):
        f = {}
        for j in range(n):
            if j != i:
                f = add(f, mul(var(n, i), var(n, j, 2)), 10)
        f = add(f, var(n, i), -11)
        F.append(add(f, const(n, 10)))
    return n, F

def eco(n):
    F = []
    for k in range(1, n):
        f = mul(var(n, k - 1), var(n, n - 1))
        for i in range(1, n - k):
            f = add(f, mul(mul(var(n, i - 1), var(n, i + k - 1)), var(n, n - 1)))
        F.append(add(f, const(n, -k)))
    l = const(n, 1)
    for i in range(n - 1):
        l = add(l, var(n, i))
    F.append(l)
    return n, F

def named(R, big=False):
    return R.choice([lambda: katsura(R.randint(2, 6 if big else 4)), lambda: cyclic(R.randint(2, 6 if big else 5)),
                     lambda: noon(R.randint(2, 5 if big else 4)), lambda: eco(R.randint(3, 7 if big else 5))])()

def permute_vars(F, perm):
    out = []
    for f in F:
        g = {}
        for e, c in f.items():
            k = [0] * len(e)
            for i, x in enumerate(e):
                k[perm[i]] = x
            g[tuple(k)] = c
        out.append(g)
    return out

def mix_ideal(R, F, p, nv, style='small'):
    """replace the generators by other generators of the same ideal"""
    F = [dict(f) for f in F]
    for _ in range(R.randint(1, 4)):
        if len(F) < 2:
            break
        i, j = R.sample(range(len(F)), 2)
        m = {rmon(R, nv, R.choice([0, 0, 1])): coef(R, p, style)}
        g = add(F[i], mul(F[j], m, p), 1, p)
        if g and len(g) < 60:
            F[i] = g
    if R.random() < .3:
        F.append(dict(R.choice(F)))
    if R.random() < .3:
        F.append(mul(R.choice(F), {rmon(R, nv, 2): coef(R, p, style)}, p))
    R.shuffle(F)
    return F

FAMILIES = ['sparse', 'sparse', 'sparse', 'dense', 'homog', 'named', 'factor', 'binomial', 'monomial', 'linear',
            'many', 'univ', 'highexp', 'points', 'manyvars', 'mixed', 'const', 'determ', 'quadrics', 'quadrics']

def through_point(R, F, p, nv, style):
    """changes constant terms so that all polynomials vanish at a common point"""
    pt = [R.randrange(p) if p else R.randint(-3, 3) for _ in range(nv)] if R.random() < .7 else [0] * nv
    out = []
    for f in F:
        v = 0
        for e, c in f.items():
            t = c
            for x, k in zip(pt, e):
                if k:
                    t = t * (pow(x, k, p) if p else x ** k)
            v += t
        if p:
            v %= p
        g = add(f, const(nv, 1), -v, p)
        if g:
            out.append(g)
    return out

def system(R, p, fam=None, big=False, style=None):
    """-> (family, nv, F) over F_p (p>0) or Q (p=0); every polynomial nonzero"""
    fam = fam or R.choice(FAMILIES)
    style = style or R.choice(COEF_P if p else COEF_0)
    nv = R.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    F = []
    if fam == 'sparse':
        d = R.choice([2, 2, 3, 3, 4, 5])
        for _ in range(R.randint(1, nv + 2)):
            F.append(rpoly(R, nv, d, R.randint(1, 6), p, style))
    elif fam == 'dense':
        nv = R.choice([2, 2, 3, 3, 4])
        d = R.choice([2, 2, 3]) if nv < 4 else 2
        for _ in range(R.randint(2, nv + 1)):
            F.append(rpoly(R, nv, d, 25, p, style))
    elif fam == 'homog':
        d = R.choice([2, 3, 4])
        for _ in range(R.randint(1, nv + 2)):
            F.append(rpoly(R, nv, R.choice([d, d, 1, 2]), R.randint(1, 6), p, style, True))
    elif fam == 'named':
        nv, F = named(R, big)
        perm = list(range(nv)); R.shuffle(perm)
        F = permute_vars(F, perm)
        if p:
            F = redp(F, p)
        if R.random() < .5:
            F = mix_ideal(R, F, p, nv)
    elif fam == 'factor':
        nv = R.choice([2, 3, 4])
        cf = rpoly(R, nv, 1, 3, p, style)
        for _ in range(R.randint(1, 3)):
            g = rpoly(R, nv, 1, 3, p, style)
            if R.random() < .5:
                g = mul(g, rpoly(R, nv, 1, 2, p, style), p)
            F.append(mul(cf, g, p) if R.random() < .7 else mul(g, g, p))
    elif fam == 'binomial':
        d = R.choice([3, 4, 6, 9])
        for _ in range(R.randint(1, nv + 1)):
            F.append(rpoly(R, nv, d, 2, p, 'unit' if R.random() < .7 else style))
    elif fam == 'monomial':
        for _ in range(R.randint(1, 2 * nv + 2)):
            f = rpoly(R, nv, R.choice([3, 8, 30]), 1, p, style)
            F.append(f)
        if R.random() < .5:
            F.append(rpoly(R, nv, 2, 3, p, style))
    elif fam == 'linear':
        nv = R.choice([2, 4, 6, 9, 12])
        for _ in range(R.randint(1, nv + 2)):
            F.append(rpoly(R, nv, 1, R.randint(1, 5), p, style))
        if R.random() < .5:
            F.append(rpoly(R, nv, 2, 3, p, style))
    elif fam == 'many':
        nv = R.choice([2, 3, 4])
        d = R.choice([2, 3])
        for _ in range(R.randint(6, 24)):
            F.append(rpoly(R, nv, d, R.randint(2, 5), p, style, R.random() < .5))
    elif fam == 'univ':
        nv = R.choice([1, 1, 2])
        a = rpoly(R, nv, R.choice([3, 6, 20]), R.randint(1, 6), p, style)
        F.append(a)
        if R.random() < .7:
            F.append(mul(rpoly(R, nv, 4, 3, p, style), rpoly(R, nv, 3, 3, p, style), p))
    elif fam == 'highexp':
        nv = R.choice([1, 2, 2, 3])
        top = R.choice([17, 64, 130, 255, 256, 300, 1000])
        if nv > 1:
            top = min(top, R.choice([40, 80, 130, 260]) if nv == 2 else R.choice([20, 36, 64]))
        for _ in range(R.randint(1, nv + 1)):
            f = {}
            for _ in range(R.randint(1, 3)):
                e = [0] * nv
                e[R.randrange(nv)] = R.randint(0, top)
                if R.random() < .5:
                    e[R.randrange(nv)] += R.randint(0, 3)
                f[tuple(e)] = coef(R, p, style)
            F.append(f)
    elif fam == 'points':
        # products of linear forms through grid points
        nv = R.choice([2, 2, 3])
        for i in range(nv):
            f = const(nv, 1)
            for _ in range(R.randint(1, 3)):
                l = var(nv, i)
                l = add(l, const(nv, R.randint(-5, 5)), 1, p)
                if R.random() < .5:
                    l = add(l, var(nv, R.randrange(nv)), R.randint(-3, 3), p)
                if l:
                    f = mul(f, l, p)
            F.append(f)
        F = mix_ideal(R, F, p, nv)
    elif fam == 'manyvars':
        nv = R.choice([8, 10, 16, 17, 31, 32, 33, 40])
        k = R.randint(2, 8)
        sup = sorted(R.sample(range(nv), min(nv, R.randint(2, 10))))
        for _ in range(k):
            f = {}
            for _ in range(R.randint(1, 3)):
                f[rmon(R, nv, R.choice([1, 2, 2]), False, sup)] = coef(R, p, style)
            F.append(f)
    elif fam == 'mixed':
        # a small nontrivial system plus linear substitutions
        nv = R.choice([3, 4])
        base = rpoly(R, nv, 2, 4, p, style)
        F = [base, rpoly(R, nv, 1, 3, p, style), rpoly(R, nv, 3, 3, p, style)]
        if R.random() < .5:
            F.append(mul(base, base, p))
    elif fam == 'const':
        for _ in range(R.randint(1, 3)):
            F.append(rpoly(R, nv, 2, 3, p, style))
        k = R.random()
        if k < .4:
            F.append(const(nv, coef(R, p, style)))
        elif k < .7:
            g = R.choice(F)
            F.append(add(g, const(nv, 1), 1, p))
        R.shuffle(F)
    elif fam == 'determ':
        # 2x2 minors of a 2xk matrix of linear forms
        nv = R.choice([3, 4, 5])
        k = R.choice([3, 3, 4])
        L = [[rpoly(R, nv, 1, R.randint(1, 2), p, 'small', R.random() < .6) for _ in range(k)] for _ in range(2)]
        for i in range(k):
            for j in range(i + 1, k):
                f = add(mul(L[0][i], L[1][j], p), mul(L[0][j], L[1][i], p), -1, p)
                F.append(f)
    elif fam == 'quadrics':
        nv = R.choice([4, 5, 6] if big else [3, 4, 4, 5])
        m = R.choice([nv - 1, nv, nv, nv + 1, nv + 3])
        d = 2 if nv > 3 else R.choice([2, 3])
        for _ in range(m):
            F.append(rpoly(R, nv, d, R.choice([5, 10, 60]), p, style))
    F = [f for f in F if f]
    if fam in ('sparse', 'dense', 'many', 'mixed', 'quadrics', 'linear') and R.random() < .6:
        F = through_point(R, F, p, nv, style)
    if p:
        F = redp(F, p)
    if not F:
        F = [var(nv, 0)]
    return fam, nv, F

# ------------------------------------------------------------ zero-dimensional systems over Q
def large_zerodim(R):
    """systems with many solutions or many variables that are still cheap to solve"""
    k = R.choice(['ci2', 'ci3', 'many', 'many', 'quads', 'grid2', 'roots', 'mono', 'cyc'])
    unit = lambda nv, d, t: rpoly(R, nv, d, t, 0, 'unit')
    if k == 'ci2':
        nv = 2
        F = []
        for i in range(2):
            d = R.choice([3, 4, 5, 6, 7, 8, 9, 11, 13])
            F.append(add(unit(2, d - 1, R.randint(2, 8)), var(2, i, d)))
    elif k == 'ci3':
        nv = 3
        F = []
        for i in range(3):
            d = R.choice([2, 3, 3, 4, 5])
            F.append(add(unit(3, d - 1, R.randint(2, 5)), var(3, i, d)))
    elif k == 'many':
        nv = R.choice([6, 9, 12, 15, 16, 17, 20, 33])
        d = R.choice([2, 3, 5, 9])
        j = R.randrange(nv)
        F = []
        for i in range(nv):
            f = var(nv, i, d if i == j else 1)
            for e in range(d):
                if R.random() < .5:
                    f = add(f, {tuple(e if q == j else 0 for q in range(nv)): R.choice([-5, -3, -2, -1, 1, 2, 3, 4])})
            if i != j and R.random() < .3:
                f = add(f, var(nv, R.randrange(nv)), R.choice([-2, -1, 1, 2]))
            F.append(f)
    elif k == 'quads':
        nv = R.choice([3, 4, 5, 6, 7])
        F = [add(var(nv, i, 2), unit(nv, 1, R.randint(1, 3))) for i in range(nv)]
    elif k == 'grid2':
        nv = 2
        F = []
        for i in range(2):
            f = const(2, 1)
            for r in R.sample(range(-12, 13), R.randint(4, 12)):
                f = mul(f, add(var(2, i), const(2, r)))
            F.append(f)
    elif k == 'roots':
        nv = R.choice([1, 2])
        f = const(nv, 1)
        for r in R.sample(range(-60, 61), R.randint(10, 80 if nv == 1 else 40)):
            f = mul(f, add(var(nv, 0), const(nv, r)))
        F = [f]
        if nv == 2:
            F.append(add(var(2, 1, R.choice([1, 1, 2])), unit(2, 2, 2)))
    elif k == 'cyc':
        nv = R.choice([1, 2])
        F = [add(var(nv, i, R.choice([17, 31, 32, 33, 64, 65, 100, 128, 150]) if i == 0 else R.choice([1, 1, 2])), unit(nv, 1, R.randint(1, 2))) for i in range(nv)]
    else:
        nv = R.choice([2, 3])
        F = [add(var(nv, i, R.randint(4, 12) if nv == 2 else R.randint(2, 6)), unit(nv, 1, 1)) for i in range(nv)]
    perm = list(range(nv)); R.shuffle(perm)
    F = permute_vars(F, perm)
    if R.random() < .3:
        R.shuffle(F)
    return k, nv, F

def zerodim(R, fam=None, big=False):
    """-> (family, nv, F) over Q, zero-dimensional (generically; callers classify)"""
    fam = fam or R.choice(['triangular', 'triangular', 'grid', 'grid', 'ci', 'ci', 'shape', 'double', 'named', 'linear',
                           'univ', 'circle', 'sym', 'ratpts', 'noreal', 'zerocoord', 'close', 'vclose', 'bigroots', 'mixdeg', 'large', 'large'])
    F = []
    if fam == 'large':
        k, nv, F = large_zerodim(R)
        return 'large-' + k, nv, F
    if fam == 'triangular':
        nv = R.choice([2, 2, 3, 3, 4])
        budget = 12
        for i in range(nv - 1, -1, -1):
            d = R.choice([1, 1, 2, 2, 3])
            d = min(d, budget)
            budget = max(1, budget // d)
            f = {tuple(d if j == i else 0 for j in range(nv)): R.choice([1, 1, 2, 3, -1])}
            for _ in range(R.randint(1, 4)):
                e = [0] * nv
                for _ in range(R.randint(0, 2)):
                    e[R.randrange(i, nv)] += 1
                if e[i] < d:
                    f[tuple(e)] = R.choice([1, -1, 2, -3, 5, -7])
            F.append(f)
        R.shuffle(F)
    elif fam == 'grid':
        nv = R.choice([1, 2, 2, 3])
        for i in range(nv):
            f = const(nv, 1)
            for _ in range(R.choice([1, 2, 2, 3])):
                q = R.choice([1, 1, 2, 3, 5])
                f = mul(f, add({tuple(1 if j == i else 0 for j in range(nv)): q}, const(nv, R.randint(-6, 6))))
            F.append(f)
        if R.random() < .6:
            F = mix_ideal(R, F, 0, nv)
    elif fam == 'ci':
        nv = R.choice([2, 2, 2, 3])
        for _ in range(nv + R.choice([0, 0, 0, 1])):
            F.append(rpoly(R, nv, R.choice([2, 2, 3]) if nv == 2 else 2, R.randint(3, 7), 0, R.choice(['small', 'mid'])))
    elif fam == 'shape':
        nv = R.choice([2, 3, 4])
        d = R.choice([2, 3, 4, 6])
        u = {tuple([0] * (nv - 1) + [k]): R.randint(-9, 9) for k in range(d)}
        u = {e: c for e, c in u.items() if c}
        u[tuple([0] * (nv - 1) + [d])] = R.choice([1, 1, 2, 7])
        F = [u]
        for i in range(nv - 1):
            f = var(nv, i)
            f = {e: R.choice([1, 2, 3]) for e in f}
            for k in range(d):
                if R.random() < .6:
                    f = add(f, {tuple([0] * (nv - 1) + [k]): R.randint(-9, 9) or 1})
            F.append(f)
        if R.random() < .6:
            F = mix_ideal(R, F, 0, nv)
    elif fam == 'double':
        # multiple roots
        nv = R.choice([1, 2, 2, 3])
        for i in range(nv):
            a = add(var(nv, i), const(nv, R.randint(-4, 4)))
            f = mul(a, a) if R.random() < .7 else a
            if R.random() < .6:
                f = mul(f, add(var(nv, i), const(nv, R.randint(-4, 4))))
            if i and R.random() < .4:
                f = add(f, mul(var(nv, i - 1), var(nv, i)))
            F.append(f)
        if R.random() < .3:
            F = mix_ideal(R, F, 0, nv)
    elif fam == 'named':
        nv, F = R.choice([lambda: katsura(R.randint(1, 4 if big else 3)), lambda: noon(R.randint(2, 3)),
                          lambda: eco(R.randint(3, 6 if big else 5)), lambda: cyclic(R.choice([2, 3, 5] if big else [2, 3]))])()
        perm = list(range(nv)); R.shuffle(perm)
        F = permute_vars(F, perm)
    elif fam == 'linear':
        nv = R.choice([1, 2, 3, 5, 8])
        for i in range(nv):
            f = rpoly(R, nv, 1, R.randint(1, 4), 0, R.choice(['small', 'mid', 'rat', 'big']))
            f = add(f, var(nv, i), 3)
            F.append(f)
    elif fam == 'univ':
        nv = 1
        f = rpoly(R, 1, R.choice([1, 2, 3, 5, 8, 12]), R.randint(1, 8), 0, R.choice(['small', 'mid', 'big', 'rat']))
        f = add(f, var(1, 0, R.choice([1, 2, 3, 5, 9])), 1)
        F = [f or var(1, 0)]
    elif fam == 'circle':
        nv = 2
        r = R.randint(1, 30)
        F = [add(add(var(2, 0, 2), var(2, 1, 2)), const(2, -r)),
             rpoly(R, 2, R.choice([1, 2]), R.randint(2, 4), 0, 'small')]
    elif fam == 'sym':
        nv = R.choice([2, 3])
        s = {}
        for i in range(nv):
            s = add(s, var(nv, i))
        F = [add(s, const(nv, R.randint(-3, 3)))]
        s2 = {}
        for i in range(nv):
            s2 = add(s2, var(nv, i, 2))
        F.append(add(s2, const(nv, -R.randint(1, 20))))
        if nv == 3:
            F.append(add({(1, 1, 1): 1}, const(3, R.randint(-4, 4))))
    elif fam == 'ratpts':
        # rational roots with varied denominators
        nv = R.choice([1, 2, 3])
        for i in range(nv):
            f = const(nv, 1)
            for _ in range(R.choice([1, 2, 3]) if nv < 3 else R.choice([1, 2])):
                q, a = R.choice([1, 2, 3, 7, 64, 1000, 1 << 20]), R.randint(-50, 50)
                f = mul(f, add({tuple(1 if j == i else 0 for j in range(nv)): q}, const(nv, a)))
            F.append(f)
    elif fam == 'noreal':
        nv = R.choice([1, 2, 3])
        for i in range(nv):
            f = add(var(nv, i, 2), const(nv, R.randint(1, 5)))
            if R.random() < .4:
                f = add(f, var(nv, R.randrange(nv)))
            if R.random() < .3:
                f = mul(f, add(var(nv, i), const(nv, R.randint(-3, 3))))
            F.append(f)
    elif fam == 'zerocoord':
        nv = R.choice([2, 3, 4])
        for i in range(nv):
            k = R.random()
            if k < .3:
                F.append(var(nv, i))
            elif k < .7:
                F.append(mul(var(nv, i), add(var(nv, i), const(nv, R.randint(-5, 5)))))
            else:
                F.append(add(var(nv, i, 2), const(nv, -R.randint(1, 9))))
        if R.random() < .4:
            F = mix_ideal(R, F, 0, nv)
    elif fam == 'close':
        # nearby real roots
        nv = R.choice([1, 2])
        k = R.choice([5, 10, 20, 40])
        a = R.randint(-5, 5)
        f = mul(add(var(nv, 0), const(nv, a)), add({tuple(1 if j == 0 else 0 for j in range(nv)): 1 << k}, const(nv, (a << k) + 1)))
        F = [f]
        if nv == 2:
            F.append(add(add(var(2, 1, 2), var(2, 0), -1), const(2, -R.randint(1, 9))))
    elif fam == 'vclose':
        # irrational roots at distance 2^-k or so, beyond the precision of the first isolation
        nv = R.choice([2, 2, 3])
        k = R.choice([20, 60, 100, 140, 180, 260, 300])
        x = R.randrange(nv)
        lin = add({tuple(1 if j == x else 0 for j in range(nv)): R.choice([1, 2, 3, 7])}, const(nv, R.choice([1, -1]) * R.randint(1, 9)))
        m = R.choice([1, 2, 3, 5])
        f = add({e: c << (2 * k) for e, c in mul(lin, lin).items()}, const(nv, -m))
        if R.random() < .3:
            f = mul(f, add(var(nv, x), const(nv, R.randint(-3, 3))))
        F = [f]
        for i in range(nv):
            if i != x:
                g = {tuple(R.choice([1, 1, 2]) if j == i else 0 for j in range(nv)): R.choice([1, 1, 2, -3])}
                g = add(g, var(nv, x, R.choice([1, 1, 2])), R.choice([1, -1, 2]))
                F.append(add(g, const(nv, R.randint(-9, 9))))
    elif fam == 'bigroots':
        nv = R.choice([1, 2])
        N = R.getrandbits(R.choice([30, 60, 100])) | 1
        F = [add(var(nv, 0, R.choice([1, 2, 3])), const(nv, -N))]
        if nv == 2:
            F.append(add(add(var(2, 1, R.choice([1, 2])), var(2, 0), R.choice([1, -1, 3])), const(2, R.randint(-9, 9))))
    elif fam == 'mixdeg':
        nv = R.choice([2, 3])
        for i in range(nv):
            d = R.choice([1, 2, 3])
            f = {tuple(d if j == i else 0 for j in range(nv)): R.choice([1, 2, -3])}
            f = add(f, rpoly(R, nv, max(1, d - 1), R.randint(1, 4), 0, 'mid'))
            F.append(f)
    F = [f for f in F if f]
    if not F:
        nv, F = 1, [var(1, 0)]
    return fam, nv, F

def lin_change(R, F, nv, p=0):
    """random unimodular-ish linear substitution (invertible, small entries)"""
    imgs = [var(nv, i) for i in range(nv)]
    for _ in range(R.randint(1, 2 * nv)):
        if nv < 2:
            break
        i, j = R.sample(range(nv), 2)
        imgs[i] = add(imgs[i], imgs[j], R.choice([1, -1, 2]), p)
    return [subst(f, imgs, nv, p) for f in F]

# ------------------------------------------------------------ shrinking
def shrink_system(case, minpolys=1, keep_nv=False):
    for c in _shrink_system(case, minpolys, keep_nv):
        if any(c['F']):
            yield c

def _shrink_system(case, minpolys=1, keep_nv=False):
    """smaller variants of a case holding 'F' (encoded), 'nv', optional 'opts' (list of lists), 'variant', 't'"""
    F = case['F']
    def w(**kw):
        c = dict(case)
        c.update(kw)
        return c
    if case.get('opts'):
        for i in range(len(case['opts'])):
            if not (case.get('keepopts') and case['opts'][i][0] in case['keepopts']):
                yield w(opts=case['opts'][:i] + case['opts'][i + 1:])
    if len(F) > minpolys:
        h = len(F) // 2
        if h >= minpolys and h > 1:
            yield w(F=F[:h])
            yield w(F=F[h:])
        for i in range(len(F)):
            yield w(F=F[:i] + F[i + 1:])
    for i, f in enumerate(F):
        if len(f) > 3:
            h = len(f) // 2
            yield w(F=F[:i] + [f[:h]] + F[i + 1:])
            yield w(F=F[:i] + [f[h:]] + F[i + 1:])
        if len(f) > 1:
            for j in range(len(f)):
                yield w(F=F[:i] + [f[:j] + f[j + 1:]] + F[i + 1:])
    # unused variable
    if not keep_nv and case['nv'] > 1:
        for v in range(case['nv']):
            if all(t[1][v] == 0 for f in F for t in f):
                yield w(nv=case['nv'] - 1, F=[[[t[0], t[1][:v] + t[1][v + 1:]] for t in f] for f in F])
    for i, f in enumerate(F):
        for j, (c, e) in enumerate(f):
            for v in range(case['nv']):
                if e[v] > 0:
                    for k in sorted({0, e[v] // 2, e[v] - 1}):
                        if k < e[v]:
                            ne = e[:v] + [k] + e[v + 1:]
                            if all(t[1] != ne for t in f):
                                yield w(F=F[:i] + [f[:j] + [[c, ne]] + f[j + 1:]] + F[i + 1:])
            cand = []
            if isinstance(c, str):
                q = Fraction(c)
                cand = [1, q.numerator]
            elif abs(c) > 1:
                cand = [1, c // 2 if c > 0 else -((-c) // 2), c % 10 or 1] if c > 0 else [1, -1, -((-c) // 2)]
            for k in cand:
                if k != c and k != 0:
                    yield w(F=F[:i] + [f[:j] + [[k, e]] + f[j + 1:]] + F[i + 1:])
