"""Shared machinery: solving zero-dimensional systems (parametrizations, real boxes)."""
import gen, vp, build
from fractions import Fraction
from math import gcd

class Param:
    pass

def _up(x, what):
    if x == [-1, [0]]:
        return [0]          # how the zero polynomial is printed over prime fields
    if not (isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list)
            and len(x[1]) == x[0] + 1 and all(isinstance(c, int) for c in x[1])):
        raise vp.Bad('malformed univariate polynomial (%s) in output: %s' % (what, str(x)[:100]))
    return x[1]

def parse_output(text, vs):
    """-> ('empty',) | ('posdim', n) | ('zero', Param or None, boxes or None)"""
    L = vp.parse_list(vp.strip_comments(text))
    if L == [-1]:
        return ('empty',)
    if len(L) == 4 and L[0] == 1 and L[2] == -1 and L[3] == []:
        return ('posdim', L[1])
    if not L or L[0] != 0:
        raise vp.Bad('unexpected output %s' % str(L)[:200])
    par = boxes = None
    rest = L[1:]
    if rest and len(rest[0]) == 6:
        q = rest[0]
        par = Param()
        par.char, par.nv, par.deg, par.vars, par.form = q[:5]
        if not (isinstance(q[5], list) and len(q[5]) == 2 and q[5][0] == 1 and len(q[5][1]) == 3):
            raise vp.Bad('malformed parametrization %s' % str(q)[:200])
        w, d, cs = q[5][1]
        par.w, par.den = _up(w, 'w'), _up(d, "w'")
        par.num = []
        for c in cs:
            if par.char == 0:
                if len(c) != 2 or not isinstance(c[1], int) or c[1] == 0:
                    raise vp.Bad('malformed coordinate %s' % str(c)[:100])
                par.num.append((_up(c[0], 'v'), c[1]))
            else:
                if len(c) != 1:
                    raise vp.Bad('malformed coordinate %s' % str(c)[:100])
                par.num.append((_up(c[0], 'v'), 1))
        if len(par.vars) != par.nv or len(par.num) != par.nv - 1:
            raise vp.Bad('parametrization has %d variables, %d names, %d coordinates' %
                         (par.nv, len(par.vars), len(par.num)))
        if sorted(par.vars) != sorted(vs) and sorted(par.vars[:-1]) != sorted(vs):
            raise vp.Bad('parametrization is over variables %s, input has %s' % (par.vars, vs))
        rest = rest[1:]
    if rest:
        b = rest[0]
        if not (len(b) == 2 and b[0] == 1 and isinstance(b[1], list)):
            raise vp.Bad('malformed solution list %s' % str(b)[:200])
        boxes = b[1]
        rest = rest[1:]
    if rest:
        raise vp.Bad('unexpected trailing data in output %s' % str(rest)[:100])
    return ('zero', par, boxes)

def coords(par, vs):
    """numerators num_i and common scaling: x_i = num_i/den_i mod w, as integer polynomials"""
    extra = len(par.vars) == len(vs) + 1
    n = []
    wd = [k * c for k, c in enumerate(par.w)][1:]
    for v in vs:
        i = par.vars.index(v)
        if i < len(par.num):
            q, c = par.num[i]
            n.append(([-a for a in q], c))
        else:
            # the parametrizing variable itself: t = t*w'/w'
            n.append(None)
    return extra, n, wd

def verify_param_q(par, F, nv, vs, info, P):
    """None or a message"""
    extra, n, wd = coords(par, vs)
    w = par.w
    if w[-1] % P == 0:
        return 'leading coefficient vanishes mod a 60-bit prime'
    if par.den != wd:
        return "denominator is not w'"
    if any(len(q) > len(w) - 1 for q, c in par.num if len(w) > 1) and len(w) > 2:
        return 'deg v_i >= deg w'
    g = 0
    dim, D, nz = info
    if par.deg != D:
        return 'reported degree %s, quotient has dimension %s' % (par.deg, D)
    if len(w) - 1 != nz:
        return 'deg(w) = %d but the system has %d distinct complex solutions' % (len(w) - 1, nz)
    nums = []
    for x in n:
        if x is None:
            nums.append([0] + [c for c in wd])     # t*w'
        else:
            ic = pow(x[1] % P, -1, P)
            nums.append([a * ic % P for a in x[0]])
    r = vp.ref_param(F, P, nv, w, wd, nums)
    if not r[0].startswith('sqfree ok'):
        return 'parametrization does not satisfy the system: %s' % r[0]
    xs = []
    for l in r[1:1 + nv]:
        t = list(map(int, l.split()))
        xs.append(t[1:])
    # the linear form
    form = [vp.modp(c, P) for c in par.form]
    if len(form) != par.nv:
        return 'linear form has %d coefficients for %d variables' % (len(form), par.nv)
    if extra:
        if form[-1] == 0:
            return 'linear form does not involve the new variable'
        acc = [0] * max(2, len(w))
        for v, x in zip(vs, xs):
            c = form[par.vars.index(v)]
            for k, a in enumerate(x):
                acc[k] = (acc[k] + c * a) % P
        acc[1] = (acc[1] + form[-1]) % P
        # reduce mod w (only degree-1 w can need it)
        if len(w) == 2:
            t0 = -w[0] * pow(w[1], -1, P) % P
            acc = [(acc[0] + acc[1] * t0) % P]
        if any(acc):
            return 'linear form does not define the parametrizing element'
    else:
        if form[:-1] != [0] * (par.nv - 1) or form[-1] != 1:
            return 'unexpected linear form %s' % par.form
    return None

def check_param_q(par, F, nv, vs, info):
    if par.char != 0:
        raise vp.Bad('parametrization reports characteristic %s' % par.char)
    m = verify_param_q(par, F, nv, vs, info, vp.BIGP[0])
    if m:
        m2 = verify_param_q(par, F, nv, vs, vp.ref_info(F, vp.BIGP[1], nv), vp.BIGP[1])
        if m2:
            raise vp.Bad(m2)
    # content: w and the numerators are printed over the integers
    if len(par.w) < 2:
        raise vp.Bad('constant eliminating polynomial')

class Unlucky(vp.Bad):
    pass

def check_param_p(par, F, nv, vs, p, info):
    """parametrization over F_p: w squarefree, x_i = -v_i(t), all solutions over the closure"""
    dim, D, nz = info
    if par.char != p:
        raise vp.Bad('parametrization reports characteristic %s' % par.char)
    if par.den != [1]:
        raise vp.Bad('denominator over a prime field is %s, not 1' % par.den)
    if par.deg != D:
        raise vp.Bad('reported degree %s, quotient has dimension %s' % (par.deg, D))
    w = par.w
    if any(not 0 <= c < p for q in [w] + [x[0] for x in par.num] for c in q):
        raise vp.Bad('coefficient outside of [0,p)')
    if len(w) < 2 or w[-1] != 1:
        raise vp.Bad('eliminating polynomial is constant or not monic')
    if len(w) - 1 != nz:
        raise (Unlucky if len(w) - 1 < nz else vp.Bad)('deg(w) = %d but the system has %d distinct solutions' % (len(w) - 1, nz))
    extra = len(par.vars) == len(vs) + 1
    nums = []
    for v in vs:
        i = par.vars.index(v)
        if i < len(par.num):
            if len(par.num[i][0]) > len(w) - 1:
                raise vp.Bad('deg v_i >= deg w')
            nums.append([-c for c in par.num[i][0]])
        else:
            nums.append([0, 1])
    r = vp.ref_param(F, p, nv, w, [1], nums)
    if not r[0].startswith('sqfree ok'):
        raise vp.Bad('parametrization does not satisfy the system: %s' % r[0])
    form = [c % p for c in par.form]
    if len(form) != par.nv:
        raise vp.Bad('linear form has %d coefficients for %d variables' % (len(form), par.nv))
    if extra:
        acc = [0] * max(2, len(w))
        for v, x in zip(vs, nums):
            c = form[par.vars.index(v)]
            for k, a in enumerate(x):
                acc[k] = (acc[k] + c * a) % p
        acc[1] = (acc[1] + form[-1]) % p
        if len(w) == 2:
            acc = [(acc[0] - acc[1] * w[0]) % p]
        if any(acc) or form[-1] == 0:
            raise vp.Bad('linear form does not define the parametrizing element')
    elif form[:-1] != [0] * (par.nv - 1) or form[-1] != 1:
        raise vp.Bad('unexpected linear form %s' % par.form)

class NotSeparating(Exception):
    pass

def check_separating(par, F, nv, vs, info):
    """Known finding (known_findings.jsonl, C06): for a non-radical ideal msolve can accept a parametrizing element t that
    takes the same value at several solutions. Recognised exactly, everything else is a violation: the ideal is not radical,
    t does not separate, w is the squarefree minimal polynomial of t, and in every fibre of t only one solution has the
    maximal multiplicity in t, so that the check msolve makes (which only sees those) cannot notice the others: the number
    of zeros of I : (m/sqfree(m))(t) is deg w."""
    dim, D, nz = info
    if len(par.w) - 1 >= nz or D == nz or len(par.form) != par.nv:
        return
    P = par.char or vp.BIGP[0]
    form = [vp.modp(par.form[par.vars.index(v)], P) for v in vs]
    m = vp.ref_minpolys(F, P, nv, [form])
    if not m:
        return
    m = [c % P for c in m[0]]
    if sqfree_degree(m, P) != len(par.w) - 1:
        return
    if max_multiplicity_zeros(F, nv, P, form, m) == len(par.w) - 1:
        raise NotSeparating('multiplicity')

def max_multiplicity_zeros(F, nv, P, form, m):
    """number of zeros of I : h(t), h = m / squarefree part of m"""
    G = vp.ref_gb(F, P, nv)
    key = vp.mkey()
    L = [vp.lead(g, key) for g in G]
    B = [(0,) * nv]
    seen = set(B)
    for e in B:
        for i in range(nv):
            k = e[:i] + (e[i] + 1,) + e[i + 1:]
            if k not in seen and not any(all(x <= y for x, y in zip(l, k)) for l in L):
                seen.add(k)
                B.append(k)
    idx = {e: i for i, e in enumerate(B)}
    n = len(B)
    pr = []
    for e in B:
        f = {}
        for i, c in enumerate(form):
            if c:
                f[e[:i] + (e[i] + 1,) + e[i + 1:]] = c
        pr.append(f)
    M = []          # row j: t*B[j]
    for f in vp.ref_nf(G, pr, P, nv):
        r = [0] * n
        for e, c in f.items():
            r[idx[e]] = c
        M.append(r)
    h = polydiv(m, sqfree_part(m, P), P)
    R = [[0] * n for _ in range(n)]
    for c in reversed(h):
        R = [[sum(x * y for x, y in zip(r, col)) % P for col in zip(*M)] for r in R]
        for i in range(n):
            R[i][i] = (R[i][i] + c) % P
    # left kernel: combinations of B[j] killed by h(t)
    K = []
    rows = [(r[:], {j: 1}) for j, r in enumerate(R)]
    piv = []
    for r, comb in rows:
        for pc, pr_, pcomb in piv:
            c = r[pc]
            if c:
                r[:] = [(x - c * y) % P for x, y in zip(r, pr_)]
                for k, v in pcomb.items():
                    comb[k] = (comb.get(k, 0) - c * v) % P
        nzc = next((k for k, x in enumerate(r) if x), None)
        if nzc is None:
            K.append({B[k]: v for k, v in comb.items() if v})
        else:
            i = pow(r[nzc], -1, P)
            piv.append((nzc, [x * i % P for x in r], {k: v * i % P for k, v in comb.items()}))
    return vp.ref_info(G + K, P, nv)[2]

def _trim(a):
    while a and a[-1] == 0:
        a.pop()
    return a

def polydivmod(a, b, P):
    a = _trim([c % P for c in a]); b = _trim([c % P for c in b])
    i = pow(b[-1], -1, P)
    q = [0] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b):
        c = a[-1] * i % P
        s = len(a) - len(b)
        q[s] = c
        for k, x in enumerate(b):
            a[s + k] = (a[s + k] - c * x) % P
        a = _trim(a)
    return q, a

def polydiv(a, b, P):
    return polydivmod(a, b, P)[0]

def polygcd(a, b, P):
    while _trim(b):
        a, b = b, polydivmod(a, b, P)[1]
    return a

def sqfree_part(f, P):
    f = _trim([c % P for c in f])
    d = _trim([k * c % P for k, c in enumerate(f)][1:])
    return polydiv(f, polygcd(f, d, P), P) if d else f

def sqfree_degree(f, P):
    return len(sqfree_part(f, P)) - 1

def _dy(x):
    if isinstance(x, int):
        return '%d 0' % x
    k = x.denominator.bit_length() - 1
    if x.denominator != 1 << k:
        raise vp.Bad('box bound is not dyadic')
    return '%d %d' % (x.numerator, -k)

def lcm(a, b):
    return a // gcd(a, b) * b

def oracle_boxes(par, vs, order, boxes):
    """counts of real solutions in boxes / boxes per solution, using a verified parametrization"""
    _, n, wd = coords(par, vs)
    M = 1
    for x in n:
        if x is not None:
            M = lcm(M, abs(x[1]))
    den = [c * M for c in wd]
    nums = {}
    for v, x in zip(vs, n):
        if x is None:
            nums[v] = [0] + den
        else:
            q = M // x[1]
            nums[v] = [a * q for a in x[0]]
    goal = 64
    for b in boxes:
        for lo, hi in b:
            for z in (lo, hi):
                if isinstance(z, Fraction):
                    goal = max(goal, z.denominator.bit_length() + 64)
    def u(p):
        return '%d %s' % (len(p), ' '.join(map(str, p)))
    s = vp.oracle('boxes %d %d %s %s %s %d %s' % (goal, len(vs), u(par.w), u(den), ' '.join(u(nums[v]) for v in order),
                  len(boxes), ' '.join(_dy(z) for b in boxes for iv in b for z in iv)))
    l = s.split('\n')
    nreal = int(l[0])
    inc = list(map(int, l[3].split()))
    return nreal, list(map(int, l[1].split())), list(map(int, l[2].split())), l[4:4 + nreal], list(zip(inc[::2], inc[1::2]))

def matching(n, inc):
    """is there a perfect matching between n boxes and n solutions along the incidences?"""
    adj = [[] for _ in range(n)]
    for b, s in inc:
        adj[b].append(s)
    own = [-1] * n
    def aug(b, seen):
        for s in adj[b]:
            if s not in seen:
                seen.add(s)
                if own[s] < 0 or aug(own[s], seen):
                    own[s] = b
                    return True
        return False
    return all(aug(b, set()) for b in range(n))

def width_bound(p):
    """relative width of the printed intervals: p bits up to 64, else at least max(64, p/2) bits"""
    return Fraction(4, 1 << min(p, max(64, p // 2)))

def check_boxes_shape(boxes, nv):
    for b in boxes:
        if not (isinstance(b, list) and len(b) == nv and all(isinstance(i, list) and len(i) == 2 for i in b)):
            raise vp.Bad('malformed box %s' % str(b)[:200])
        for lo, hi in b:
            if lo > hi:
                raise vp.Bad('empty interval [%s, %s] in a box' % (lo, hi))

def check_boxes(par, vs, order, boxes, prec=128):
    """bijection between boxes and real solutions; a box holds a second solution only if it is as thin as the precision
    that was asked for (the two solutions agree to that precision)"""
    check_boxes_shape(boxes, len(vs))
    nreal, cb, cs, sols, inc = oracle_boxes(par, vs, order, boxes)
    if len(boxes) != nreal:
        raise vp.Bad('%d boxes, %d real solutions (%s)' % (len(boxes), nreal, '; '.join(sols)[:300]))
    if any(c == 0 for c in cb):
        raise vp.Bad('a box contains no real solution (%s)' % '; '.join(sols)[:300])
    if any(c == 0 for c in cs):
        raise vp.Bad('a real solution lies in no box (%s)' % '; '.join(sols)[:300])
    if not matching(nreal, inc):
        raise vp.Bad('boxes and real solutions do not correspond one to one (%s)' % '; '.join(sols)[:300])
    for b, c in zip(boxes, cb):
        if c > 1 and any(hi - lo > width_bound(prec) * max(1, abs(lo), abs(hi)) for lo, hi in b):
            raise vp.Bad('a box wider than the precision contains %d real solutions (%s)' % (c, '; '.join(sols)[:300]))
    return nreal
