"""C16: the library interface, as histories of calls in one process."""
import os, subprocess
from fractions import Fraction
import gen, vp, build
import gbp, solve
from gbp import canon
from gbq import monic_modp, FAM_Q
from runner import Prop

def ser_ff(F, nv):
    """polynomials as the harness reads them; a zero polynomial is one zero term"""
    out = []
    for f in F:
        t = list(f.items()) or [((0,) * nv, 0)]
        out.append('%d %s' % (len(t), ' '.join('%d %s' % (c, ' '.join(map(str, e))) for e, c in t)))
    return '\n'.join(out)

def ser_qq(F, nv):
    out = []
    for f in F:
        t = list(f.items()) or [((0,) * nv, 0)]
        out.append('%d %s' % (len(t), ' '.join('%d %d %s' % (Fraction(c).numerator, Fraction(c).denominator, ' '.join(map(str, e))) for e, c in t)))
    return '\n'.join(out)

def command(c):
    F, nv = gen.dec(c['F']), c['nv']
    k = c['kind']
    if k in ('gb', 'gq'):
        p = 0 if k == 'gq' else c['p']
        h = '%s %d %d %d %d %d %d %d %d %d %d %d 0' % (k, p, c['lex'], c['elim'], nv, len(F), c['ht'], c['thr'], c['maxp'], c['reset'], c['la'], c['red'])
        return h + '\n' + (ser_ff(F, nv) if p else ser_qq(F, nv)) + '\n'
    if k == 'nf':
        T, B = gen.dec(c['T']), gen.dec(c['B'] if c['isgb'] else c['F'])
        h = 'nf %d %d %d %d %d %d %d %d' % (c['p'], c['lex'], c['elim'], nv, len(T), len(B), c['isgb'], c['thr'])
        return h + '\n' + ser_ff(T, nv) + '\n' + ser_ff(B, nv) + '\n'
    h = 'ms %d %d %d %d %d %d %d %d %d %d' % (nv, len(F), c['ht'], c['thr'], c['maxp'], c['reset'], c['la'], c['getparam'], 2, c['prec'])
    return h + '\n' + ' '.join(c['names']) + '\n' + ser_qq(F, nv) + '\n'

class Lines:
    def __init__(self, s):
        self.l = s.split('\n')
        self.i = 0
    def next(self):
        if self.i >= len(self.l) or self.l[self.i] == '':
            raise vp.Bad('results of the library call are missing')
        self.i += 1
        return self.l[self.i - 1]

def read_basis(L, nv):
    nt, n = map(int, L.next().split())
    if n < 0:
        raise vp.Bad('library call returned no result')
    G = []
    tot = 0
    for _ in range(n):
        t = list(map(int, L.next().split()))
        m = t[0]
        tot += m
        f = {}
        terms = []
        for j in range(m):
            e = tuple(t[2 + j * (nv + 1):2 + j * (nv + 1) + nv])
            terms.append((e, t[1 + j * (nv + 1)]))
        for e, c in terms:
            if e in f:
                raise vp.Bad('monomial twice in an exported polynomial')
            f[e] = c
        G.append(f)
    if tot != nt:
        raise vp.Bad('return value is %d, exported polynomials have %d terms' % (nt, tot))
    return G

class P(Prop):
    id = 'C16'
    builds = ['oracle'] + ['hlib:' + v for v in build.variants()]
    quick_cases = 24000
    thorough_cases = 300000
    rule = ('histories of 1 to 6 library calls in one process (export_f4 with degree reverse lexicographic, lexicographic and elimination orders, with '
            'and without final reduction; export_groebner_qq; export_nf with and without the promise of a basis; '
            'msolve_julia), with different fields, sizes, orders and parameters in sequence; non-trivial = at least 2 calls, two of '
            'them with a nontrivial basis')
    assumptions = ['generators handed to the library have nonzero reduced coefficients; normal forms modulo the zero ideal are not part of the interface']
    only = None
    kinds = ['gb', 'gb', 'gb', 'nf', 'nf', 'gq', 'ms']
    def gen(self, R, i, tier):
        calls = []
        mix = None
        if R.random() < .2:
            # fields that need different code one after the other, with the same kind of linear algebra
            mix = R.sample([(3, 1 << 8), (1 << 8, 1 << 16), (1 << 16, 1 << 17), (1 << 17, 1 << 18), (1 << 18, 1 << 21), (1 << 29, 1 << 30),
                            (1 << 30, (1 << 31) - 1)], R.choice([2, 2, 3]))
        for _ in range(R.choice([1, 2, 2, 3, 4, 6]) if mix is None else R.choice([2, 3, 4, 6])):
            c = self.call(R) if mix is None else self.call(R, R.choice(mix))
            if c:
                calls.append(c)
        if not calls:
            return None
        if R.random() < .3:
            # the same call again later in the history
            calls.append(R.choice(calls))
        return {'calls': calls, 't': gen.clock(R), 'variant': R.choice([build.native()] + build.variants())}
    def call(self, R, rng=None):
        k = R.choice(self.kinds) if rng is None else 'gb'
        base = {'kind': k, 'ht': R.choice([0, 1, 3, 8, 12, 17]), 'thr': R.choice([0, 1, 1, 2]), 'maxp': R.choice([0, 0, 0, 1, 3, 100]),
                'reset': R.choice([0, 0, 1, 2]), 'la': R.choice([1, 2, 2]), 'lex': 0, 'elim': 0, 'red': R.choice([1, 1, 1, 0])}
        if k in ('gb', 'nf'):
            p = gen.prime(R) if rng is None else gen.next_prime(R.randrange(*rng) - 1)
            if p >= 1 << 31:
                p = 2147483647
            if k == 'nf' and (1 << 16) < p < (1 << 20):
                p = 65521       # normal forms use randomised linear algebra from 2^16 on
            fam, nv, F = gen.system(R, p, fam=R.choice([f for f in gen.FAMILIES if f not in ('highexp', 'named')] if rng is None or R.random() < .2
                                                         else ['dense', 'quadrics', 'quadrics', 'named', 'mixed']))
            F = [f for f in F if f]
            if p > (1 << 26) and k == 'gb':
                base['la'] = R.choice([1, 2, 42, 44])
            if rng is not None:
                base['la'] = R.choice([1, 1, 1, 2] + [42] * (p > (1 << 26)))
            m = R.random()
            if m < .25:
                base['lex'] = 1
            elif m < .45 and nv > 1:
                base['elim'] = R.randint(1, nv - 1)
            base.update(fam=fam, p=p, nv=nv, F=gen.enc(F))
            if k == 'gb' and R.random() < .03:
                base['F'] = [[]] * R.choice([1, 2])
            elif k == 'gb' and R.random() < .05:
                base['F'] = base['F'] + [[]]
            if k == 'nf':
                style = R.choice(gen.COEF_P)
                from c10 import target
                base['T'] = gen.enc([target(R, F, nv, p, style) for _ in range(R.choice([1, 1, 2, 4]))])
                base['isgb'] = 0
                if R.random() < .4:
                    try:
                        G = vp.ref_gb(F, p, nv, base['elim'], base['lex'], budget=2000000)
                    except vp.TooHard:
                        return None
                    B = [{e: c * s % p for e, c in g.items()} for g in G for s in [R.randrange(1, p)]]
                    R.shuffle(B)
                    base['isgb'], base['B'] = 1, gen.enc(B)
            return base
        if k == 'gq':
            fam, nv, F = gen.system(R, 0, fam=R.choice(FAM_Q), style=R.choice(['unit', 'small', 'small', 'mid', 'rat', 'big']))
            F = [f for f in F if f]
            if not F:
                return None
            base['la'] = R.choice([1, 2, 2, 42, 44])
            base['red'] = 1
            if nv > 1 and R.random() < .25:
                base['elim'] = R.randint(1, nv - 1)
            base.update(fam=fam, p=0, nv=nv, F=gen.enc(F))
            if R.random() < .02:
                base['F'] = [[]]
            return base
        fam, nv, F = gen.zerodim(R)
        if nv > 1 and R.random() < .5:
            perm = list(range(nv)); R.shuffle(perm)
            F = gen.permute_vars(F, perm)
        F = [f for f in F if f]
        if not F:
            return None
        names = vp.varnames(nv)
        if R.random() < .5:
            l = R.choice([2, 7, 8, 23, 24, 25, 40, 56, 120])
            names = ['v%d' % j + 'q' * l for j in range(nv)]
            names = [n[:l] if len(set(m[:l] for m in names)) == nv else n for n in names]
        base['thr'] = max(1, base['thr'])
        base.update(fam=fam, nv=nv, F=gen.enc(F), names=names, getparam=R.choice([0, 1, 2, 2]), prec=R.choice([16, 64, 128, 128, 300]))
        return base
    def expect(self, c):
        """reference result, computed before anything is run"""
        nv, F, k = c['nv'], gen.dec(c['F']), c['kind']
        if k == 'ms':
            return vp.ref_info(F, vp.BIGP[0], nv)
        p = c['p'] or vp.BIGP[0]
        G = vp.ref_gb(F, p, nv, c['elim'], c['lex'], budget=300000 if c['lex'] else 4000000) if any(F) else []
        if not gbp.in_domain(F + (gen.dec(c['T']) if k == 'nf' else []), G, nv):
            return None
        if k == 'nf':
            return G, vp.ref_nf(G, gen.dec(c['T']), p, nv, c['elim'], c['lex'])
        return G
    def check(self, case):
        todo = []
        for c in case['calls']:
            try:
                E = self.expect(c)
            except vp.TooHard:
                E = None
            if E is None or c['kind'] == 'ms' and (E[0] != 0 or E[1] > 40) and c.get('nv', 0) > 4:
                continue
            todo.append((c, E))
        if not todo:
            return False, ['skipped:all-calls']
        lex = any(c['lex'] for c, E in todo)
        inp = ''.join(command(c) for c, E in todo)
        fo = os.path.join(vp.scratch(), 'lib.out')
        if os.path.exists(fo):
            os.unlink(fo)
        r = vp.run_cmd([vp.BIN['hlib:' + case['variant']], fo], fo, case['variant'], case['t'], stdin=inp.encode(), cpu=4 if lex else None)
        if r.timeout and lex:
            # tails are reduced without any degree bound: matrices for the lexicographical order may be huge
            return False, ['skipped:lex-blowup']
        if not r.timeout and 'FOREIGN' in r.out:
            raise vp.Bad('a returned array does not come from the allocator of the caller')
        vp.expect_ok(r)
        L = Lines(r.out)
        nt = 0
        labels = ['calls:%d' % len(todo)]
        for n, (c, E) in enumerate(todo):
            try:
                if L.next() != 'ok':
                    raise vp.Bad('the input arrays were modified')
                l = self.judge(c, E, L)
                if L.next() != 'end':
                    raise vp.Bad('unexpected output')
            except vp.Bad as e:
                raise vp.Bad('call %d of %d (%s): %s' % (n + 1, len(todo), c['kind'], e))
            labels += l
            if 'basis:nontrivial' in l or 'ms:solutions' in l:
                nt += 1
        return len(todo) >= 2 and nt >= 2, sorted(set(labels))
    def judge(self, c, E, L):
        nv, F, k = c['nv'], gen.dec(c['F']), c['kind']
        if k == 'ms':
            return self.judge_ms(c, E, L, F, nv)
        H = read_basis(L, nv)
        p = c['p'] or vp.BIGP[0]
        H = [{} if all(x == 0 for x in h.values()) and len(h) == 1 else h for h in H]
        if any(x % p == 0 for h in H for x in h.values()):
            raise vp.Bad('zero coefficient exported')
        if c['p'] and any(not 0 < x < p for h in H for x in h.values()):
            raise vp.Bad('coefficient outside of the range 1..p-1')
        key = vp.mkey(c['elim'], c['lex'])
        for h in H:
            t = [key(e) for e in h]
            if t != sorted(t, reverse=True):
                raise vp.Bad('terms are not in decreasing order')
        vs = vp.varnames(nv)
        if k == 'nf':
            G, N = E
            if H != N:
                raise vp.Bad('normal forms %s, expected %s' % ([vp.poly_str(h, vs)[:200] for h in H][:4], [vp.poly_str(h, vs)[:200] for h in N][:4]))
            return ['nf', 'isgb' if c['isgb'] else 'computed'] + (['basis:nontrivial'] if len(G) >= 2 else [])
        G = E
        if k == 'gq' and c['elim']:
            G = [g for g in G if all(not any(e[:c['elim']]) for e in g)]
        l = ['%s:%s' % (k, 'lex' if c['lex'] else 'elim' if c['elim'] else 'drl'), 'char0' if not c['p'] else 'size:%s' % (8 if p < 256 else 16 if p < 65536 else 32)]
        if not G:
            if H != [{}] and H != []:
                raise vp.Bad('basis of the zero ideal: %s' % [vp.poly_str(h, vs) for h in H][:3])
            return l + ['zero']
        if any(not h for h in H):
            raise vp.Bad('zero polynomial in the basis')
        M = H
        if not c['p']:
            from math import gcd
            M = monic_modp(H, p, key)
            for h in H:
                g = 0
                for x in h.values():
                    g = gcd(g, x)
        if c['p'] and any(h[vp.lead(h, key)] != 1 for h in H):
            raise vp.Bad('basis element is not monic')
        if c['red']:
            if canon(M) != canon(G):
                if c['p'] or not self.second(c, F, H, nv, key):
                    raise vp.Bad('basis %s, expected %s' % ([vp.poly_str(h, vs)[:200] for h in H][:6], [vp.poly_str(g, vs)[:200] for g in G][:6]))
        else:
            l.append('notreduced')
            lm = sorted(vp.lead(h, key) for h in M)
            if lm != sorted(vp.lead(g, key) for g in G):
                raise vp.Bad('leading monomials of the basis %s, expected %s' % (lm[:8], sorted(vp.lead(g, key) for g in G)[:8]))
            if any(vp.ref_nf(E, M, p, nv, c['elim'], c['lex'])):
                raise vp.Bad('an element of the basis is not in the ideal')
        if k == 'gq' or c['red']:
            lm = [key(vp.lead(h, key)) for h in H]
            if lm != sorted(lm):
                raise vp.Bad('basis is not sorted by increasing leading monomial')
        return l + (['basis:nontrivial'] if len(G) >= 2 else [])
    def second(self, c, F, H, nv, key):
        P = vp.BIGP[1]
        G = vp.ref_gb(F, P, nv, c['elim'], c['lex'])
        if c['kind'] == 'gq' and c['elim']:
            G = [g for g in G if all(not any(e[:c['elim']]) for e in g)]
        M = monic_modp(H, P, key)
        return M is not None and canon(M) == canon(G)
    def judge_ms(self, c, info, L, F, nv):
        ld, rnv, dim, dq, nrs = map(int, L.next().split())
        names, form = L.next(), L.next()
        vs = c['names']
        l = L.next()
        rows = []
        if l != 'noparam':
            rows.append(list(map(int, l.split())))
            for _ in range(ld - 1):
                rows.append(list(map(int, L.next().split())))
        l = L.next()
        sols = None
        if l != 'nosols':
            sols = list(map(int, L.next().split()))
        if info[0] > 0:
            if dim <= 0:
                raise vp.Bad('ideal has dimension %d, returned dimension %d' % (info[0], dim))
            return ['ms:posdim']
        if info[0] < 0:
            if not (dim == 0 and dq == 0) or nrs > 0 or rows:
                raise vp.Bad('no solutions, but returned dim %d, degree %d, %d real solutions' % (dim, dq, nrs))
            return ['ms:empty']
        if dim != 0 or not rows or names == 'nonames':
            raise vp.Bad('finitely many solutions, returned dimension %d (load %d)' % (dim, ld))
        par = solve.Param()
        par.vars = names.split()[1:]
        par.char, par.deg, par.nv = 0, dq, rnv
        if par.vars != vs and sorted(par.vars) != sorted(vs) and sorted(par.vars[:-1]) != sorted(vs):
            raise vp.Bad('returned variable names %s for %s' % (par.vars, vs))
        par.form = list(map(int, form.split()[1:])) if form != 'noform' else [0] * (rnv - 1) + [1]
        for r in rows:
            if r[0] != len(r) - 1:
                raise vp.Bad('truncated result')
        if ld != rnv + 1 or len(rows) != ld:
            raise vp.Bad('load %d for %d variables' % (ld, rnv))
        par.w, par.den = rows[0][1:], rows[1][1:]
        par.num = [(r[1:-1] or [0], r[-1]) for r in rows[2:]]
        if any(x[1] == 0 for x in par.num):
            raise vp.Bad('zero denominator')
        try:
            solve.check_separating(par, F, nv, vs, info)
        except solve.NotSeparating as e:
            return ['known:not-separating(%s)' % e]
        solve.check_param_q(par, F, nv, vs, info)
        if c['getparam'] > 1:
            return ['ms:param']
        boxes = []
        if nrs > 0:
            if sols is None or len(sols) % (4 * nrs):
                raise vp.Bad('%d real solutions but no boxes' % nrs)
            m = len(sols) // (4 * nrs)
            dy = lambda a, k: Fraction(a) * (Fraction(1, 2 ** k) if k >= 0 else 2 ** -k)
            dec = lambda x: int(x) if x.denominator == 1 else x
            for i in range(nrs):
                b = []
                for j in range(m):
                    o = 4 * (i * m + j)
                    b.append([dec(dy(sols[o], sols[o + 1])), dec(dy(sols[o + 2], sols[o + 3]))])
                boxes.append(b)
        solve.check_boxes(par, vs, vs if c['getparam'] == 0 else [v for v in par.vars if v in vs], boxes, c['prec'])
        return ['ms:solutions']
    def shrinks(self, case):
        C = case['calls']
        for i in range(len(C)):
            if len(C) > 1:
                yield dict(case, calls=C[:i] + C[i + 1:])
        for i, c in enumerate(C):
            for s in gen.shrink_system(dict(c, opts=[]), keep_nv=True):
                yield dict(case, calls=C[:i] + [s] + C[i + 1:])
            for k, v in (('ht', 12), ('thr', 1), ('maxp', 0), ('reset', 0), ('la', 2), ('lex', 0), ('elim', 0), ('red', 1)):
                if c.get(k, v) != v:
                    yield dict(case, calls=C[:i] + [dict(c, **{k: v})] + C[i + 1:])
            if c['kind'] == 'nf':
                for j in range(len(c['T'])):
                    if len(c['T']) > 1:
                        yield dict(case, calls=C[:i] + [dict(c, T=c['T'][:j] + c['T'][j + 1:])] + C[i + 1:])
    def show(self, case):
        return {'calls': [dict({k: v for k, v in c.items() if k not in ('F', 'T', 'B')}, input=[vp.poly_str(f, c.get('names') or vp.varnames(c['nv']))
                for f in gen.dec(c['F'])]) for c in case['calls']], 'binary': case['variant']}
PROP = P()
