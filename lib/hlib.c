/* Drives the library interface: reads a history of calls from stdin, performs them in one process and writes the results to
 * argv[1]. The caller's allocator is a tagged one, inputs are compared with copies after every call. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include "src/msolve/libmsolve.c"

static FILE *out;
#define MAGIC 0x5eed5eed1234abcdUL
/* live blocks of the caller's allocator; blocks of other allocators are not looked at */
static void *live[4096];
static void *mymalloc(size_t n)
{
    unsigned long *p = malloc(n + 16);
    p[0] = MAGIC; p[1] = n;
    #pragma omp critical (vp_live)
    { int i = 0; while (i < 4095 && live[i]) i++; live[i] = p + 2; }
    return p + 2;
}
static int mine(const void *q)
{
    for (int i = 0; q && i < 4096; i++) if (live[i] == q) return ((const unsigned long *)q)[-2] == MAGIC;
    return 0;
}
static size_t sz(const void *q) { return ((const unsigned long *)q)[-1]; }
static void myfree(void *q)
{
    unsigned long *p = q;
    if (!mine(q)) { fprintf(out, "FOREIGN\n"); fflush(out); _exit(9); }
    p[-2] = 0;
    for (int i = 0; i < 4096; i++) if (live[i] == q) live[i] = NULL;
    free(p - 2);
}
static long rd(void) { long x; if (scanf("%ld", &x) != 1) exit(3); return x; }

typedef struct { int n; int32_t *lens, *exps; void *cfs; long nt; int q; } sys_t;
/* n polynomials: length, then per term a coefficient (rational: numerator denominator) and nv exponents */
static sys_t rsys(int n, int nv, int q)
{
    sys_t s = {n, malloc((n + 1) * sizeof(int32_t)), NULL, NULL, 0, q};
    long cap = 16;
    s.exps = malloc(cap * nv * sizeof(int32_t));
    int32_t *ci = malloc(cap * sizeof(int32_t));
    mpz_t **cz = malloc(2 * cap * sizeof(mpz_t *));
    for (int i = 0; i < n; i++) {
        s.lens[i] = rd();
        for (int j = 0; j < s.lens[i]; j++, s.nt++) {
            if (s.nt == cap) {
                cap *= 2;
                s.exps = realloc(s.exps, cap * nv * sizeof(int32_t));
                ci = realloc(ci, cap * sizeof(int32_t));
                cz = realloc(cz, 2 * cap * sizeof(mpz_t *));
            }
            if (q) {
                for (int k = 0; k < 2; k++) {
                    cz[2 * s.nt + k] = malloc(sizeof(mpz_t));
                    mpz_init(*cz[2 * s.nt + k]);
                    if (gmp_scanf("%Zd", *cz[2 * s.nt + k]) != 1) exit(3);
                }
            } else {
                ci[s.nt] = rd();
            }
            for (int v = 0; v < nv; v++) s.exps[s.nt * nv + v] = rd();
        }
    }
    /* exactly as long as needed */
    s.exps = realloc(s.exps, (s.nt * nv + 1) * sizeof(int32_t));
    int32_t *e = malloc(s.nt * nv * sizeof(int32_t));
    memcpy(e, s.exps, s.nt * nv * sizeof(int32_t));
    free(s.exps); s.exps = e;
    if (q) { s.cfs = cz; free(ci); } else {
        int32_t *c = malloc(s.nt * sizeof(int32_t));
        memcpy(c, ci, s.nt * sizeof(int32_t));
        s.cfs = c; free(ci); free(cz);
    }
    return s;
}
static char *image(sys_t *s, int nv)
{
    char *b; size_t l;
    FILE *f = open_memstream(&b, &l);
    for (int i = 0; i < s->n; i++) fprintf(f, "%d ", s->lens[i]);
    for (long i = 0; i < s->nt * nv; i++) fprintf(f, "%d ", s->exps[i]);
    for (long i = 0; i < s->nt; i++)
        if (s->q) gmp_fprintf(f, "%Zd/%Zd ", *((mpz_t **)s->cfs)[2 * i], *((mpz_t **)s->cfs)[2 * i + 1]);
        else fprintf(f, "%d ", ((int32_t *)s->cfs)[i]);
    fclose(f);
    return b;
}
static void fsys(sys_t *s)
{
    if (s->q) {
        mpz_t **z = s->cfs;
        for (long i = 0; i < 2 * s->nt; i++) { mpz_clear(*z[i]); free(z[i]); }
    }
    free(s->cfs); free(s->lens); free(s->exps);
}
static void wsys(long nterms, int nv, int32_t ld, int32_t *len, int32_t *exp, void *cf, int q)
{
    long t = 0;
    fprintf(out, "%ld %d\n", nterms, ld);
    for (int i = 0; i < ld; i++) {
        fprintf(out, "%d", len[i]);
        for (int j = 0; j < len[i]; j++, t++) {
            if (q) gmp_fprintf(out, " %Zd", ((mpz_t *)cf)[t]);
            else fprintf(out, " %d", ((int32_t *)cf)[t]);
            for (int v = 0; v < nv; v++) fprintf(out, " %d", exp[t * nv + v]);
        }
        fprintf(out, "\n");
    }
}
int main(int argc, char **argv)
{
    char op[8];
    out = fopen(argv[1], "w");
    if (!out) return 4;
    while (scanf("%7s", op) == 1) {
        int32_t ld = -7, *len = NULL, *exp = NULL;
        void *cf = NULL;
        if (!strcmp(op, "gb") || !strcmp(op, "gq")) {
            int qq = op[1] == 'q';
            long p = rd(), mo = rd(), el = rd(), nv = rd(), ng = rd(), ht = rd(), thr = rd(), mp = rd(), rs = rd(), la = rd(), rg = rd(), tr = rd();
            sys_t s = rsys(ng, nv, p == 0);
            char *a = image(&s, nv);
            long nt = qq ? export_groebner_qq(mymalloc, &ld, &len, &exp, &cf, s.lens, s.exps, s.cfs, p, mo, el, nv, ng, ht, thr, mp, rs, la, rg, 0, tr, 0)
                         : export_f4(mymalloc, &ld, &len, &exp, &cf, s.lens, s.exps, s.cfs, p, mo, el, nv, ng, ht, thr, mp, rs, la, rg, 0, 0);
            char *b = image(&s, nv);
            fprintf(out, "%s\n", strcmp(a, b) ? "MODIFIED" : "ok");
            fflush(out);
            if (!mine(len) || !mine(exp)) { fprintf(out, "FOREIGN\n"); fclose(out); return 9; }
            wsys(nt, nv, ld, len, exp, cf, p == 0);
            void *cf0 = cf;
            if (p) free_f4_julia_result_data(myfree, &len, &exp, &cf, ld, p);
            else {
                free_f4_julia_result_data(myfree, &len, &exp, &cf, ld, p);
                if (mine(cf0)) myfree(cf0);
            }
            free(a); free(b); fsys(&s);
        } else if (!strcmp(op, "nf")) {
            long p = rd(), mo = rd(), el = rd(), nv = rd(), nt_ = rd(), ng = rd(), isgb = rd(), thr = rd();
            sys_t t = rsys(nt_, nv, 0), s = rsys(ng, nv, 0);
            char *a = image(&s, nv), *a2 = image(&t, nv);
            long nt = export_nf(mymalloc, &ld, &len, &exp, &cf, nt_, t.lens, t.exps, t.cfs, ng, s.lens, s.exps, s.cfs, p, mo, el, nv, isgb, thr, 0);
            char *b = image(&s, nv), *b2 = image(&t, nv);
            fprintf(out, "%s\n", strcmp(a, b) || strcmp(a2, b2) ? "MODIFIED" : "ok");
            if (!mine(len) || !mine(exp) || !mine(cf)) { fprintf(out, "FOREIGN\n"); fclose(out); return 9; }
            wsys(nt, nv, ld, len, exp, cf, 0);
            free_f4_julia_result_data(myfree, &len, &exp, &cf, ld, p);
            free(a); free(b); free(a2); free(b2); fsys(&s); fsys(&t);
        } else if (!strcmp(op, "ms")) {
            long nv = rd(), ng = rd(), ht = rd(), thr = rd(), mp = rd(), rs = rd(), la = rd(), gp = rd(), gh = rd(), pr = rd();
            char **vn = malloc(nv * sizeof(char *));
            for (int i = 0; i < nv; i++) { static char nm[300]; if (scanf("%299s", nm) != 1) return 3; vn[i] = strdup(nm); }
            sys_t s = rsys(ng, nv, 1);
            char *a = image(&s, nv);
            int32_t rnv = -7, dim = -7, dq = -7, nrs = -7, *lens = NULL, *sden = NULL;
            char **rvn = NULL;
            void *lf = NULL, *rcf = NULL, *snum = NULL;
            msolve_julia(mymalloc, &ld, &rnv, &dim, &dq, &lens, &rvn, &lf, &rcf, &nrs, &snum, &sden, s.lens, s.exps, s.cfs, vn, NULL, 0, 0, 0, nv, ng,
                         ht, thr, mp, rs, la, 0, 0, gp, gh, pr, 0);
            char *b = image(&s, nv);
            fprintf(out, "%s\n", strcmp(a, b) ? "MODIFIED" : "ok");
            fprintf(out, "%d %d %d %d %d\n", ld, rnv, dim, dq, nrs);
            if (rvn) {
                fprintf(out, "names");
                for (int i = 0; i < rnv; i++) fprintf(out, " %s", rvn[i]);
                fprintf(out, "\n");
            } else fprintf(out, "nonames\n");
            if (lf) {
                fprintf(out, "form");
                for (int i = 0; i < rnv; i++) gmp_fprintf(out, " %Zd", ((mpz_t *)lf)[i]);
                fprintf(out, "\n");
            } else fprintf(out, "noform\n");
            if (lens && rcf) {
                long c = 0;
                for (int i = 0; i < ld; i++) {
                    fprintf(out, "%d", lens[i]);
                    for (int j = 0; j < lens[i]; j++) gmp_fprintf(out, " %Zd", ((mpz_t *)rcf)[c++]);
                    fprintf(out, "\n");
                }
            } else fprintf(out, "noparam\n");
            if (snum && sden) {
                fprintf(out, "sols %ld\n", (long)(sz(sden) / sizeof(int32_t)));
                for (long i = 0; i < (long)(sz(sden) / sizeof(int32_t)); i++) gmp_fprintf(out, "%Zd %d ", ((mpz_t *)snum)[i], sden[i]);
                fprintf(out, "\n");
            } else fprintf(out, "nosols\n");
            if (lens) { void *s1 = snum; int32_t *s2 = sden; if (s2) free_msolve_julia_result_data(myfree, &lens, &rcf, &s1, &s2, ld, nrs, 0); }
            free(a); free(b); fsys(&s);
            for (int i = 0; i < nv; i++) free(vn[i]);
            free(vn);
        } else return 5;
        fprintf(out, "end\n");
        fflush(out);
    }
    fclose(out);
    return 0;
}
