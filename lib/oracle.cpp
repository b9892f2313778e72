// Reference oracle for the msolve checks. Independent of msolve's sources:
// textbook Buchberger (Gebauer-Moeller pair update) over F_p (p < 2^62),
// linear algebra in the quotient ring, certified root enclosures via Arb.
//
// Text protocol: one request string -> one malloc'ed reply string.
// Polynomials are "nterms  c e1..en  c e1..en ..." whitespace separated.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <sstream>
#include <map>
#include <set>
#include <array>
#include <stdexcept>
#include <gmp.h>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpq.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/arb.h>
#include <flint/acb.h>
#include <flint/arf.h>
#include <flint/arb_poly.h>
#include <flint/arb_fmpz_poly.h>

typedef uint64_t u64;
typedef unsigned __int128 u128;
struct TooHard : std::runtime_error { TooHard() : std::runtime_error("toohard") {} };

static thread_local u64 P;
static thread_local u64 BUDGET;
static inline void spend(u64 k) { if (BUDGET < k) throw TooHard(); BUDGET -= k; }
static inline u64 addm(u64 a, u64 b) { u64 c = a + b; return c >= P ? c - P : c; }
static inline u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static inline u64 mulm(u64 a, u64 b) { return (u64)((u128)a * b % P); }
static u64 powm(u64 a, u64 e) { u64 r = 1 % P; a %= P; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u64 invm(u64 a) {
    __int128 t = 0, nt = 1, r = P, nr = a;
    while (nr) { __int128 q = r / nr; __int128 x = t - q * nt; t = nt; nt = x; x = r - q * nr; r = nr; nr = x; }
    if (r != 1) throw std::runtime_error("noinv");
    if (t < 0) t += P;
    return (u64)t;
}

// ---- monomials ----
template <int N> struct Mon {
    uint32_t e[N];
    bool operator==(const Mon &o) const { return !memcmp(e, o.e, sizeof e); }
};
static thread_local int NV, ELIM, LEX;

template <int N> static inline int cmpblk(const Mon<N> &a, const Mon<N> &b, int lo, int hi) {
    u64 da = 0, db = 0;
    for (int i = lo; i < hi; i++) { da += a.e[i]; db += b.e[i]; }
    if (da != db) return da < db ? -1 : 1;
    for (int i = hi - 1; i >= lo; i--)
        if (a.e[i] != b.e[i]) return a.e[i] > b.e[i] ? -1 : 1;
    return 0;
}
template <int N> static inline int cmp(const Mon<N> &a, const Mon<N> &b) {
    if (LEX) {
        for (int i = 0; i < NV; i++) if (a.e[i] != b.e[i]) return a.e[i] < b.e[i] ? -1 : 1;
        return 0;
    }
    if (ELIM > 0) { int c = cmpblk<N>(a, b, 0, ELIM); if (c) return c; }
    return cmpblk<N>(a, b, ELIM, NV);
}
template <int N> static inline bool divides(const Mon<N> &a, const Mon<N> &b) {
    for (int i = 0; i < NV; i++) if (a.e[i] > b.e[i]) return false;
    return true;
}
template <int N> static inline u64 deg(const Mon<N> &a) { u64 d = 0; for (int i = 0; i < NV; i++) d += a.e[i]; return d; }

template <int N> struct Term { Mon<N> m; u64 c; };
template <int N> using Poly = std::vector<Term<N>>;

template <int N> static void normalise(Poly<N> &f) {
    std::sort(f.begin(), f.end(), [](const Term<N> &a, const Term<N> &b) { return cmp<N>(a.m, b.m) > 0; });
    Poly<N> g;
    for (auto &t : f) {
        if (!g.empty() && g.back().m == t.m) g.back().c = addm(g.back().c, t.c);
        else { if (!g.empty() && g.back().c == 0) g.pop_back(); g.push_back(t); }
    }
    if (!g.empty() && g.back().c == 0) g.pop_back();
    f.swap(g);
}
template <int N> static void monic(Poly<N> &f) {
    if (f.empty() || f[0].c == 1) return;
    u64 i = invm(f[0].c);
    for (auto &t : f) t.c = mulm(t.c, i);
}
// out = f[from..] - c * m * g[gfrom..]
template <int N> static void submul(Poly<N> &out, const Poly<N> &f, size_t from, u64 c, const Mon<N> &m, const Poly<N> &g, size_t gfrom) {
    out.clear();
    out.reserve(f.size() - from + g.size() - gfrom);
    spend(f.size() - from + g.size() - gfrom + 1);
    size_t i = from, j = gfrom;
    u64 nc = subm(0, c);
    while (j < g.size()) {
        Term<N> t;
        memset(&t.m, 0, sizeof t.m);
        for (int k = 0; k < NV; k++) t.m.e[k] = g[j].m.e[k] + m.e[k];
        t.c = mulm(nc, g[j].c);
        int r = 1;
        while (i < f.size() && (r = cmp<N>(f[i].m, t.m)) > 0) out.push_back(f[i++]);
        if (i < f.size() && r == 0) { t.c = addm(t.c, f[i].c); i++; }
        if (t.c) out.push_back(t);
        j++;
    }
    while (i < f.size()) out.push_back(f[i++]);
}
template <int N> static Poly<N> reduce(Poly<N> f, const std::vector<Poly<N>> &G, const std::vector<char> *skip, bool full) {
    Poly<N> res, tmp;
    size_t h = 0;
    while (h < f.size()) {
        int hit = -1;
        spend(G.size() / 8 + 1);
        for (size_t k = 0; k < G.size(); k++) {
            if (skip && (*skip)[k]) continue;
            if (!G[k].empty() && divides<N>(G[k][0].m, f[h].m)) { hit = (int)k; break; }
        }
        if (hit < 0) {
            if (!full && res.empty()) { res.assign(f.begin() + h, f.end()); return res; }
            res.push_back(f[h]); h++; continue;
        }
        Mon<N> m; memset(&m, 0, sizeof m);
        for (int i = 0; i < NV; i++) m.e[i] = f[h].m.e[i] - G[hit][0].m.e[i];
        submul<N>(tmp, f, h + 1, mulm(f[h].c, invm(G[hit][0].c)), m, G[hit], 1);
        f.swap(tmp); h = 0;
    }
    return res;
}

template <int N> struct Pair { int i, j; Mon<N> l; u64 s; };

template <int N> static void interreduce(std::vector<Poly<N>> &G) {
    // minimal
    std::sort(G.begin(), G.end(), [](const Poly<N> &a, const Poly<N> &b) { return cmp<N>(a[0].m, b[0].m) < 0; });
    std::vector<Poly<N>> H;
    for (auto &g : G) {
        bool red = false;
        for (auto &h : H) if (divides<N>(h[0].m, g[0].m)) { red = true; break; }
        if (!red) H.push_back(g);
    }
    for (size_t k = 0; k < H.size(); k++) {
        Poly<N> lead(H[k].begin(), H[k].begin() + 1), tail(H[k].begin() + 1, H[k].end());
        tail = reduce<N>(tail, H, nullptr, true);
        lead.insert(lead.end(), tail.begin(), tail.end());
        H[k] = lead;
        monic<N>(H[k]);
    }
    G.swap(H);
}

template <int N> static std::vector<Poly<N>> groebner(std::vector<Poly<N>> F) {
    std::vector<Poly<N>> G;
    std::vector<char> red;
    std::vector<u64> sug;
    std::vector<Pair<N>> B;
    for (auto &f : F) { normalise<N>(f); }
    F.erase(std::remove_if(F.begin(), F.end(), [](const Poly<N> &f) { return f.empty(); }), F.end());
    std::sort(F.begin(), F.end(), [](const Poly<N> &a, const Poly<N> &b) { return cmp<N>(a[0].m, b[0].m) < 0; });

    auto lcm = [](const Mon<N> &a, const Mon<N> &b) { Mon<N> m; memset(&m, 0, sizeof m); for (int i = 0; i < NV; i++) m.e[i] = std::max(a.e[i], b.e[i]); return m; };
    auto coprime = [](const Mon<N> &a, const Mon<N> &b) { for (int i = 0; i < NV; i++) if (a.e[i] && b.e[i]) return false; return true; };

    auto insert = [&](Poly<N> f, u64 s) {
        monic<N>(f);
        int t = (int)G.size();
        const Mon<N> lm = f[0].m;
        // B criterion on old pairs
        std::vector<Pair<N>> nb;
        for (auto &p : B) {
            if (divides<N>(lm, p.l) && !(lcm(G[p.i][0].m, lm) == p.l) && !(lcm(G[p.j][0].m, lm) == p.l)) continue;
            nb.push_back(p);
        }
        std::vector<Pair<N>> np;
        for (int i = 0; i < t; i++) {
            if (red[i]) continue;
            Pair<N> p; p.i = i; p.j = t; p.l = lcm(G[i][0].m, lm);
            u64 dl = deg<N>(p.l);
            p.s = std::max(sug[i] + dl - deg<N>(G[i][0].m), s + dl - deg<N>(lm));
            np.push_back(p);
        }
        spend(np.size() * np.size() / 16 + nb.size() / 4 + 1);
        // M/F criteria
        std::vector<char> keep(np.size(), 1);
        for (size_t a = 0; a < np.size(); a++) {
            for (size_t b = 0; b < np.size() && keep[a]; b++) {
                if (a == b || !keep[b]) continue;
                if (divides<N>(np[b].l, np[a].l)) {
                    if (np[a].l == np[b].l) {
                        // keep the coprime one (removed later); else the smaller index
                        bool ca = coprime(G[np[a].i][0].m, lm), cb = coprime(G[np[b].i][0].m, lm);
                        if (cb && !ca) keep[a] = 0;
                        else if (ca == cb && b < a) keep[a] = 0;
                    } else keep[a] = 0;
                }
            }
        }
        for (size_t a = 0; a < np.size(); a++)
            if (keep[a] && !coprime(G[np[a].i][0].m, lm)) nb.push_back(np[a]);
        B.swap(nb);
        for (int i = 0; i < t; i++) if (!red[i] && divides<N>(lm, G[i][0].m)) red[i] = 1;
        G.push_back(f); red.push_back(0); sug.push_back(s);
    };

    for (auto &f : F) {
        u64 s = 0; for (auto &t : f) s = std::max(s, deg<N>(t.m));
        Poly<N> r = reduce<N>(f, G, &red, true);
        if (r.empty()) continue;
        if (deg<N>(r[0].m) == 0) { monic<N>(r); return {r}; }
        insert(r, s);
    }
    while (!B.empty()) {
        size_t best = 0;
        spend(B.size() / 8 + 1);
        for (size_t k = 1; k < B.size(); k++) {
            if (B[k].s < B[best].s || (B[k].s == B[best].s && cmp<N>(B[k].l, B[best].l) < 0)) best = k;
        }
        Pair<N> p = B[best]; B[best] = B.back(); B.pop_back();
        Mon<N> m1, m2; memset(&m1, 0, sizeof m1); memset(&m2, 0, sizeof m2);
        for (int i = 0; i < NV; i++) { m1.e[i] = p.l.e[i] - G[p.i][0].m.e[i]; m2.e[i] = p.l.e[i] - G[p.j][0].m.e[i]; }
        Poly<N> a, s, z;
        submul<N>(a, z, 0, P - 1, m1, G[p.i], 1);
        submul<N>(s, a, 0, 1, m2, G[p.j], 1);
        Poly<N> r = reduce<N>(s, G, &red, true);
        if (r.empty()) continue;
        if (deg<N>(r[0].m) == 0) { monic<N>(r); return {r}; }
        insert(r, p.s);
    }
    std::vector<Poly<N>> R;
    for (size_t i = 0; i < G.size(); i++) if (!red[i]) R.push_back(G[i]);
    interreduce<N>(R);
    return R;
}

template <int N> static Poly<N> readpoly(std::istream &in) {
    long nt; if (!(in >> nt)) throw std::runtime_error("bad poly");
    Poly<N> f(nt);
    for (auto &t : f) {
        memset(&t.m, 0, sizeof t.m);
        in >> t.c; t.c %= P;
        for (int i = 0; i < NV; i++) in >> t.m.e[i];
    }
    if (!in) throw std::runtime_error("bad poly");
    normalise<N>(f);
    return f;
}
template <int N> static void writepoly(std::ostream &o, const Poly<N> &f) {
    o << f.size();
    for (auto &t : f) { o << ' ' << t.c; for (int i = 0; i < NV; i++) o << ' ' << t.m.e[i]; }
    o << '\n';
}
template <int N> static std::vector<Poly<N>> readpolys(std::istream &in) {
    long k; if (!(in >> k)) throw std::runtime_error("bad polys");
    std::vector<Poly<N>> F;
    for (long i = 0; i < k; i++) F.push_back(readpoly<N>(in));
    return F;
}

// dimension of the ideal generated by the leading monomials (-1 for 1)
template <int N> static int dimension(const std::vector<Poly<N>> &G) {
    for (auto &g : G) if (deg<N>(g[0].m) == 0) return -1;
    // minimum hitting set of supports
    std::vector<std::vector<int>> S;
    for (auto &g : G) { std::vector<int> s; for (int i = 0; i < NV; i++) if (g[0].m.e[i]) s.push_back(i); S.push_back(s); }
    std::sort(S.begin(), S.end(), [](const std::vector<int> &a, const std::vector<int> &b) { return a.size() < b.size(); });
    std::vector<char> in(NV, 0);
    int best = NV;
    struct R { static void go(const std::vector<std::vector<int>> &S, std::vector<char> &in, int cnt, int &best) {
        spend(S.size() / 8 + 1);
        if (cnt >= best) return;
        const std::vector<int> *f = nullptr;
        for (auto &s : S) { bool h = false; for (int v : s) if (in[v]) { h = true; break; } if (!h) { f = &s; break; } }
        if (!f) { best = cnt; return; }
        for (int v : *f) { in[v] = 1; go(S, in, cnt + 1, best); in[v] = 0; }
    } };
    R::go(S, in, 0, best);
    return NV - best;
}
template <int N> static bool zerodim(const std::vector<Poly<N>> &G) { return dimension<N>(G) == 0; }

template <int N> struct MonLess { bool operator()(const Mon<N> &a, const Mon<N> &b) const { return cmp<N>(a, b) < 0; } };

template <int N> static std::vector<Mon<N>> stdmons(const std::vector<Poly<N>> &G, size_t maxd) {
    std::set<Mon<N>, MonLess<N>> seen;
    std::vector<Mon<N>> st;
    Mon<N> one; memset(&one, 0, sizeof one);
    st.push_back(one); seen.insert(one);
    while (!st.empty()) {
        Mon<N> m = st.back(); st.pop_back();
        for (int i = 0; i < NV; i++) {
            Mon<N> q = m; q.e[i]++;
            if (seen.count(q)) continue;
            bool d = false;
            spend(G.size() / 8 + 1);
            for (auto &g : G) if (divides<N>(g[0].m, q)) { d = true; break; }
            if (!d) { seen.insert(q); st.push_back(q); if (seen.size() > maxd) throw TooHard(); }
        }
    }
    return std::vector<Mon<N>>(seen.begin(), seen.end());
}

typedef std::vector<u64> Vec;
typedef std::vector<Vec> Mat;

// multiplication matrices: M[v][j] = coordinates of x_v * b_j
template <int N> static std::vector<Mat> multmats(const std::vector<Poly<N>> &G, const std::vector<Mon<N>> &B) {
    std::map<Mon<N>, int, MonLess<N>> idx;
    for (size_t i = 0; i < B.size(); i++) idx[B[i]] = (int)i;
    std::vector<Mat> M(NV, Mat(B.size()));
    for (int v = 0; v < NV; v++)
        for (size_t j = 0; j < B.size(); j++) {
            Poly<N> f(1); f[0].m = B[j]; f[0].m.e[v]++; f[0].c = 1;
            f = reduce<N>(f, G, nullptr, true);
            Vec c(B.size(), 0);
            for (auto &t : f) c[idx.at(t.m)] = t.c;
            M[v][j] = c;
        }
    return M;
}
static Vec matvec(const Mat &M, const Vec &x) { // sum_j x_j * M[j]
    size_t D = M.size(); Vec r(D, 0);
    spend(D * D / 2 + 1);
    for (size_t j = 0; j < D; j++) if (x[j]) for (size_t i = 0; i < D; i++) if (M[j][i]) r[i] = addm(r[i], mulm(x[j], M[j][i]));
    return r;
}
static size_t rank_of(Mat A) {
    size_t r = 0, n = A.size(); if (!n) return 0; size_t m = A[0].size();
    for (size_t c = 0; c < m && r < n; c++) {
        size_t p = r; while (p < n && !A[p][c]) p++;
        if (p == n) continue;
        std::swap(A[p], A[r]);
        u64 iv = invm(A[r][c]);
        spend(n * m / 2 + 1);
        for (size_t i = r + 1; i < n; i++) if (A[i][c]) {
            u64 q = mulm(A[i][c], iv);
            for (size_t k = c; k < m; k++) A[i][k] = subm(A[i][k], mulm(q, A[r][k]));
        }
        r++;
    }
    return r;
}
// univariate polys over F_p, low degree first
static void trim(Vec &a) { while (!a.empty() && !a.back()) a.pop_back(); }
static Vec upmul(const Vec &a, const Vec &b) {
    if (a.empty() || b.empty()) return {};
    Vec r(a.size() + b.size() - 1, 0);
    spend(a.size() * b.size() / 2 + 1);
    for (size_t i = 0; i < a.size(); i++) if (a[i]) for (size_t j = 0; j < b.size(); j++) r[i + j] = addm(r[i + j], mulm(a[i], b[j]));
    trim(r); return r;
}
static void updivrem(Vec a, const Vec &b, Vec &q, Vec &r) {
    q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, 0);
    u64 iv = invm(b.back());
    spend(q.size() * b.size() / 2 + 1);
    while (a.size() >= b.size()) {
        u64 c = mulm(a.back(), iv); size_t s = a.size() - b.size();
        q[s] = c;
        for (size_t i = 0; i < b.size(); i++) a[s + i] = subm(a[s + i], mulm(c, b[i]));
        a.pop_back();
        while (!a.empty() && !a.back()) a.pop_back();
    }
    r = a; trim(q);
}
static Vec uprem(const Vec &a, const Vec &b) { Vec q, r; updivrem(a, b, q, r); return r; }
static Vec upgcd(Vec a, Vec b) { while (!b.empty()) { Vec r = uprem(a, b); a = b; b = r; } if (!a.empty()) { u64 i = invm(a.back()); for (auto &c : a) c = mulm(c, i); } return a; }
static Vec upder(const Vec &a) { Vec r; for (size_t i = 1; i < a.size(); i++) r.push_back(mulm(a[i], i % P)); trim(r); return r; }
static Vec upsub(Vec a, const Vec &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = subm(a[i], b[i]); trim(a); return a; }
static Vec upadd(Vec a, const Vec &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = addm(a[i], b[i]); trim(a); return a; }
// inverse of a modulo w; returns false when not invertible
static bool upinv(const Vec &a, const Vec &w, Vec &out) {
    Vec r0 = w, r1 = uprem(a, w), t0, t1 = {1};
    while (!r1.empty()) {
        Vec q, r; updivrem(r0, r1, q, r);
        Vec t = upsub(t0, upmul(q, t1));
        r0 = r1; r1 = r; t0 = t1; t1 = t;
    }
    if (r0.size() != 1) return false;
    u64 i = invm(r0[0]); for (auto &c : t0) c = mulm(c, i);
    out = uprem(t0, w); return true;
}
// minimal polynomial (monic) of the element with matrix M acting on e (vector of 1)
static Vec minpoly(const Mat &M, const Vec &one) {
    size_t D = M.size();
    std::vector<Vec> rows; std::vector<Vec> comb; std::vector<size_t> piv;
    Vec v = one;
    for (size_t k = 0; k <= D; k++) {
        Vec r = v, c(D + 1, 0); c[k] = 1;
        spend((rows.size() + 1) * D / 2 + 1);
        for (size_t i = 0; i < rows.size(); i++) if (r[piv[i]]) {
            u64 q = r[piv[i]];
            for (size_t t = 0; t < D; t++) r[t] = subm(r[t], mulm(q, rows[i][t]));
            for (size_t t = 0; t <= D; t++) c[t] = subm(c[t], mulm(q, comb[i][t]));
        }
        size_t p = 0; while (p < D && !r[p]) p++;
        if (p == D) { trim(c); return c; }
        u64 iv = invm(r[p]);
        for (auto &x : r) x = mulm(x, iv);
        for (auto &x : c) x = mulm(x, iv);
        rows.push_back(r); comb.push_back(c); piv.push_back(p);
        v = matvec(M, v);
    }
    throw std::runtime_error("minpoly");
}

template <int N> static std::string run(const std::string &cmd, std::istream &in) {
    std::ostringstream o;
    if (cmd == "gb") {
        auto G = groebner<N>(readpolys<N>(in));
        o << G.size() << '\n';
        for (auto &g : G) writepoly<N>(o, g);
    } else if (cmd == "gbcheck") {
        // G is a Groebner basis of the ideal it generates and the F reduce to 0
        auto G = readpolys<N>(in), F = readpolys<N>(in);
        for (auto &f : F) if (!reduce<N>(f, G, nullptr, false).empty()) return "notin\n";
        for (size_t a = 0; a < G.size(); a++) for (size_t b = a + 1; b < G.size(); b++) {
            bool cop = true; Mon<N> l, m1, m2; memset(&l, 0, sizeof l); m1 = l; m2 = l;
            for (int i = 0; i < NV; i++) { if (G[a][0].m.e[i] && G[b][0].m.e[i]) cop = false; l.e[i] = std::max(G[a][0].m.e[i], G[b][0].m.e[i]); m1.e[i] = l.e[i] - G[a][0].m.e[i]; m2.e[i] = l.e[i] - G[b][0].m.e[i]; }
            if (cop) continue;
            Poly<N> s, t, z; submul<N>(s, z, 0, P - 1, m1, G[a], 1); submul<N>(t, s, 0, 1, m2, G[b], 1);
            if (!reduce<N>(t, G, nullptr, false).empty()) return "notgb\n";
        }
        o << "ok\n";
    } else if (cmd == "nf") {
        auto G = groebner<N>(readpolys<N>(in)); auto F = readpolys<N>(in);
        o << F.size() << '\n';
        for (auto &f : F) writepoly<N>(o, reduce<N>(f, G, nullptr, true));
    } else if (cmd == "info") {
        // dim, quotient dimension (D), number of distinct zeros over the closure (large p)
        auto G = groebner<N>(readpolys<N>(in));
        int d = dimension<N>(G);
        o << d;
        if (d == 0) {
            auto B = stdmons<N>(G, 4000);
            o << ' ' << B.size();
            if (B.size() <= 400) {
                auto M = multmats<N>(G, B);
                size_t D = B.size();
                std::map<Mon<N>, int, MonLess<N>> idx; for (size_t i = 0; i < D; i++) idx[B[i]] = (int)i;
                // coordinates of b_i*b_j via words; W[i] = matrix of b_i
                std::vector<Mat> W(D);
                for (size_t i = 0; i < D; i++) {
                    if (i == 0) { W[0].assign(D, Vec(D, 0)); for (size_t j = 0; j < D; j++) W[0][j][j] = 1; continue; }
                    int v = 0; while (!B[i].e[v]) v++;
                    Mon<N> q = B[i]; q.e[v]--; int k = idx.at(q);
                    W[i].resize(D);
                    for (size_t j = 0; j < D; j++) W[i][j] = matvec(M[v], W[k][j]);
                }
                Vec tr(D, 0);
                for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) tr[i] = addm(tr[i], W[i][j][j]);
                Mat T(D, Vec(D, 0));
                for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) { u64 s = 0; for (size_t k = 0; k < D; k++) s = addm(s, mulm(W[i][j][k], tr[k])); T[i][j] = s; }
                o << ' ' << rank_of(T);
            } else o << " -1";
        } else o << " -1 -1";
        o << '\n';
    } else if (cmd == "minpolys") {
        // for each of k linear forms (nv coefficients each): minimal polynomial in the quotient
        auto G = groebner<N>(readpolys<N>(in));
        if (!zerodim<N>(G)) return "notzerodim\n";
        auto B = stdmons<N>(G, 400); auto M = multmats<N>(G, B); size_t D = B.size();
        long k; in >> k;
        o << k << '\n';
        for (long q = 0; q < k; q++) {
            Mat L(D, Vec(D, 0));
            for (int v = 0; v < NV; v++) { u64 c; in >> c; c %= P; if (c) for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) L[i][j] = addm(L[i][j], mulm(c, M[v][i][j])); }
            Vec one(D, 0); one[0] = 1;
            Vec m = minpoly(L, one);
            o << m.size(); for (auto c : m) o << ' ' << c; o << '\n';
        }
    } else if (cmd == "param") {
        // F, then w, den, then for every variable numerator polynomial (x_i = num_i/den mod w)
        auto F = readpolys<N>(in);
        auto rd = [&]() { long k; in >> k; Vec v(k); for (auto &c : v) { in >> c; c %= P; } trim(v); return v; };
        Vec w = rd(), den = rd();
        std::vector<Vec> x; for (int i = 0; i < NV; i++) x.push_back(rd());
        if (w.size() < 2) return "badw\n";
        Vec g = upgcd(w, upder(w));
        Vec di; if (!upinv(den, w, di)) return "noinv\n";
        for (auto &v : x) v = uprem(upmul(uprem(v, w), di), w);
        o << (g.size() == 1 ? "sqfree" : "notsqfree") << ' ';
        for (size_t k = 0; k < F.size(); k++) {
            Vec acc;
            for (auto &t : F[k]) {
                Vec m = {t.c};
                for (int i = 0; i < NV; i++) for (uint32_t e = 0; e < t.m.e[i]; e++) m = uprem(upmul(m, x[i]), w);
                acc = upadd(acc, m);
            }
            acc = uprem(acc, w);
            if (!acc.empty()) { o << "nonzero " << k << '\n'; return o.str(); }
        }
        o << "ok";
        for (int i = 0; i < NV; i++) { o << '\n' << x[i].size(); for (auto c : x[i]) o << ' ' << c; }
        o << '\n';
    } else throw std::runtime_error("unknown command");
    return o.str();
}

// ---------- exact / certified real part ----------
static void readfpoly(std::istream &in, fmpz_poly_t f) {
    long k; in >> k; fmpz_poly_zero(f);
    for (long i = 0; i < k; i++) { std::string s; in >> s; fmpz_t c; fmpz_init(c); fmpz_set_str(c, s.c_str(), 10); fmpz_poly_set_coeff_fmpz(f, i, c); fmpz_clear(c); }
}
static void readdy(std::istream &in, arf_t x) { // mantissa exponent : m * 2^e
    std::string m; long e; in >> m >> e; fmpz_t c; fmpz_init(c); fmpz_set_str(c, m.c_str(), 10); arf_set_fmpz(x, c); arf_mul_2exp_si(x, x, e); fmpz_clear(c);
}
// real roots of squarefree w as exact-real balls of absolute radius < 2^-goal
static int realroots(const fmpz_poly_t w, slong goal, std::vector<arb_ptr> &out) {
    slong n = fmpz_poly_degree(w); if (n < 1) return 0;
    acb_ptr r = _acb_vec_init(n);
    for (slong prec = goal + 64;; prec *= 2) {
        arb_fmpz_poly_complex_roots(r, w, 0, prec);
        bool ok = true;
        for (slong i = 0; i < n; i++) if (arb_is_zero(acb_imagref(r + i))) { if (mag_cmp_2exp_si(arb_radref(acb_realref(r + i)), -goal) > 0) ok = false; }
        if (ok) break;
        if (prec > 4000000) { _acb_vec_clear(r, n); throw TooHard(); }
    }
    for (slong i = 0; i < n; i++) if (arb_is_zero(acb_imagref(r + i))) { arb_ptr a = _arb_vec_init(1); arb_set(a, acb_realref(r + i)); out.push_back(a); }
    _acb_vec_clear(r, n);
    return (int)out.size();
}
// "boxes goal nv ncoord w den (nv times: num) nboxes (per box: nv times lo hi as m e m e)"
// reply: nreal, then for every box the number of solutions inside, and for every solution the number of boxes
static std::string boxes(std::istream &in) {
    long goal, nv; in >> goal >> nv;
    fmpz_poly_t w, den; fmpz_poly_init(w); fmpz_poly_init(den); readfpoly(in, w); readfpoly(in, den);
    std::vector<fmpz_poly_struct> num(nv); std::vector<std::string> cs;
    for (long i = 0; i < nv; i++) { fmpz_poly_init(&num[i]); readfpoly(in, &num[i]); }
    long nb; in >> nb;
    std::vector<std::array<arf_struct, 2>> bx(nb * nv);
    for (auto &b : bx) { arf_init(&b[0]); arf_init(&b[1]); readdy(in, &b[0]); readdy(in, &b[1]); }
    if (!in) throw std::runtime_error("bad boxes");
    std::ostringstream o;
    std::vector<std::vector<arb_ptr>> sols;
    slong g = goal;
    int nreal = 0;
    for (;; g *= 2) {
        std::vector<arb_ptr> rr; nreal = realroots(w, g, rr);
        bool ok = true; sols.clear();
        for (auto r : rr) {
            std::vector<arb_ptr> s; arb_t d, n; arb_init(d); arb_init(n);
            fmpz_poly_t dummy; (void)dummy;
            arb_poly_t ap; arb_poly_init(ap);
            arb_poly_set_fmpz_poly(ap, den, 4 * g + 1024); arb_poly_evaluate(d, ap, r, 4 * g + 1024);
            for (long i = 0; i < nv; i++) {
                arb_poly_set_fmpz_poly(ap, &num[i], 4 * g + 1024); arb_poly_evaluate(n, ap, r, 4 * g + 1024);
                arb_ptr q = _arb_vec_init(1); arb_div(q, n, d, 4 * g + 1024);
                if (!arb_is_finite(q) || mag_cmp_2exp_si(arb_radref(q), -goal) > 0) ok = false;
                s.push_back(q);
            }
            arb_poly_clear(ap); arb_clear(d); arb_clear(n);
            sols.push_back(s);
        }
        for (auto r : rr) _arb_vec_clear(r, 1);
        if (ok) break;
        if (g > 1000000) throw TooHard();
        for (auto &s : sols) for (auto q : s) _arb_vec_clear(q, 1);
    }
    std::ostringstream inc;
    std::vector<int> cb(nb, 0), cs2(sols.size(), 0);
    for (long b = 0; b < nb; b++) for (size_t s = 0; s < sols.size(); s++) {
        bool inside = true;
        for (long i = 0; i < nv && inside; i++) {
            arf_t lo, hi; arf_init(lo); arf_init(hi);
            arb_get_lbound_arf(lo, sols[s][i], 4 * g + 1024); arb_get_ubound_arf(hi, sols[s][i], 4 * g + 1024);
            if (arf_cmp(hi, &bx[b * nv + i][0]) < 0 || arf_cmp(lo, &bx[b * nv + i][1]) > 0) inside = false;
            arf_clear(lo); arf_clear(hi);
        }
        if (inside) { cb[b]++; cs2[s]++; inc << b << ' ' << s << ' '; }
    }
    o << nreal << '\n'; for (int c : cb) o << c << ' '; o << '\n'; for (int c : cs2) o << c << ' '; o << '\n';
    o << inc.str() << '\n';
    for (auto &s : sols) { for (auto q : s) { o << arf_get_d(arb_midref(q), ARF_RND_NEAR) << ' '; } o << '\n'; }
    for (auto &s : sols) for (auto q : s) _arb_vec_clear(q, 1);
    for (auto &b : bx) { arf_clear(&b[0]); arf_clear(&b[1]); }
    for (auto &n : num) fmpz_poly_clear(&n);
    fmpz_poly_clear(w); fmpz_poly_clear(den);
    return o.str();
}
// "uroots goal f nint (lo hi)*" : f any nonzero integer polynomial; distinct real roots vs intervals
static std::string uroots(std::istream &in) {
    long goal; in >> goal; fmpz_poly_t f, g, d; fmpz_poly_init(f); fmpz_poly_init(g); fmpz_poly_init(d); readfpoly(in, f);
    fmpz_poly_derivative(d, f); fmpz_poly_gcd(g, f, d); fmpz_poly_div(f, f, g); fmpz_poly_primitive_part(f, f);
    long nb; in >> nb;
    std::vector<std::array<arf_struct, 2>> bx(nb);
    for (auto &b : bx) { arf_init(&b[0]); arf_init(&b[1]); readdy(in, &b[0]); readdy(in, &b[1]); }
    if (!in) throw std::runtime_error("bad uroots");
    std::vector<arb_ptr> rr; realroots(f, goal, rr);
    std::ostringstream o; o << rr.size() << '\n';
    std::vector<int> cs(rr.size(), 0);
    for (long b = 0; b < nb; b++) { int c = 0; for (size_t s = 0; s < rr.size(); s++) {
        arf_t lo, hi; arf_init(lo); arf_init(hi);
        arb_get_lbound_arf(lo, rr[s], 4 * goal + 1024); arb_get_ubound_arf(hi, rr[s], 4 * goal + 1024);
        if (arf_cmp(hi, &bx[b][0]) >= 0 && arf_cmp(lo, &bx[b][1]) <= 0) { c++; cs[s]++; }
        arf_clear(lo); arf_clear(hi); }
        o << c << ' '; }
    o << '\n'; for (int c : cs) o << c << ' '; o << '\n';
    for (auto &b : bx) { arf_clear(&b[0]); arf_clear(&b[1]); }
    for (auto r : rr) _arb_vec_clear(r, 1);
    fmpz_poly_clear(f); fmpz_poly_clear(g); fmpz_poly_clear(d);
    return o.str();
}

// "nreal f": number of distinct real roots of a square-free integer polynomial (Sturm)
static void binary_content(fmpz_poly_t f) {
    slong c = -1;
    for (slong i = 0; i < f->length; i++) if (!fmpz_is_zero(f->coeffs + i)) { slong v = fmpz_val2(f->coeffs + i); if (c < 0 || v < c) c = v; }
    if (c > 0) fmpz_poly_scalar_tdiv_2exp(f, f, c);
}
static void shift1(fmpz_poly_t f) { fmpz_t o; fmpz_init_set_ui(o, 1); fmpz_poly_taylor_shift(f, f, o); fmpz_clear(o); }
// number of roots of the square-free f in the open interval (0, 1)
static slong unitroots(const fmpz_poly_t f, int depth) {
    if (depth > 20000) throw TooHard();
    fmpz_poly_t q; fmpz_poly_init(q);
    fmpz_poly_reverse(q, f, f->length); shift1(q);
    int v = 0, s = 0;
    for (slong i = 0; i < q->length; i++) { int t = fmpz_sgn(q->coeffs + i); if (t) { if (s && t != s) v++; s = t; } }
    slong n = v;
    if (v > 1) {
        slong d = fmpz_poly_degree(f);
        fmpz_poly_set(q, f);
        for (slong i = 0; i <= d; i++) fmpz_mul_2exp(q->coeffs + i, q->coeffs + i, d - i);
        binary_content(q);
        n = unitroots(q, depth + 1);
        shift1(q);
        if (fmpz_is_zero(q->coeffs)) { n++; fmpz_poly_shift_right(q, q, 1); }
        n += unitroots(q, depth + 1);
    }
    fmpz_poly_clear(q);
    return n;
}
static slong posroots(const fmpz_poly_t f) {
    slong d = fmpz_poly_degree(f);
    if (d < 1) return 0;
    fmpz_t B; fmpz_init(B); fmpz_poly_bound_roots(B, f);
    slong k = fmpz_bits(B) + 1;
    fmpz_clear(B);
    fmpz_poly_t g; fmpz_poly_init(g); fmpz_poly_set(g, f);
    for (slong i = 0; i <= d; i++) fmpz_mul_2exp(g->coeffs + i, g->coeffs + i, k * i);
    binary_content(g);
    slong n = unitroots(g, 0);
    fmpz_poly_clear(g);
    return n;
}
static std::string nreal(std::istream &in) {
    fmpz_poly_t f; fmpz_poly_init(f); readfpoly(in, f);
    slong n;
    if (fmpz_poly_degree(f) <= 60) n = fmpz_poly_num_real_roots_sturm(f);
    else { // Descartes' rule with bisection, for square-free f
        n = 0;
        if (fmpz_is_zero(f->coeffs)) { n++; fmpz_poly_shift_right(f, f, 1); }
        n += posroots(f);
        for (slong i = 1; i <= fmpz_poly_degree(f); i += 2) fmpz_neg(f->coeffs + i, f->coeffs + i);
        n += posroots(f);
    }
    fmpz_poly_clear(f);
    return std::to_string(n) + "\n";
}

extern "C" char *vp_oracle(const char *req) {
    std::istringstream in(req);
    std::string cmd, out;
    try {
        in >> cmd;
        if (cmd == "boxes") out = boxes(in);
        else if (cmd == "uroots") out = uroots(in);
        else if (cmd == "nreal") out = nreal(in);
        else {
            in >> BUDGET >> P >> NV >> ELIM >> LEX;
            if (NV <= 6) out = run<6>(cmd, in);
            else if (NV <= 16) out = run<16>(cmd, in);
            else if (NV <= 140) out = run<140>(cmd, in);
            else out = "ERR too many variables\n";
        }
    } catch (TooHard &) { out = "TOOHARD\n"; }
    catch (std::exception &e) { out = std::string("ERR ") + e.what() + "\n"; }
    return strdup(out.c_str());
}
extern "C" void vp_free(char *p) { free(p); }
