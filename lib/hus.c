/* reads "prec nthreads deg c0 .. cdeg" lines, prints the isolating intervals */
#include <stdio.h>
#include <stdlib.h>
#include <gmp.h>
#include "config.h"
#include "src/msolve/msolve-data.h"
#include "src/usolve/libusolve.h"
int main(void)
{
    long prec, nt, deg;
    while (scanf("%ld %ld %ld", &prec, &nt, &deg) == 3) {
        mpz_t *p = malloc((deg + 1) * sizeof(mpz_t));
        for (long i = 0; i <= deg; i++) { mpz_init(p[i]); if (gmp_scanf("%Zd", p[i]) != 1) return 3; }
        unsigned long np = 0, nn = 0;
        interval *r = real_roots(p, deg, &np, &nn, (int32_t)prec, (int)nt, 0);
        printf("%lu %lu\n", np, nn);
        for (unsigned long i = 0; i < np + nn; i++)
            gmp_printf("%Zd %ld %u\n", r[i].numer, r[i].k, r[i].isexact);
        fflush(stdout);
        for (long i = 0; i <= deg; i++) mpz_clear(p[i]);
        free(p); free(r);
    }
    return 0;
}
