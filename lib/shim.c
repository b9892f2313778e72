/* linked into the binaries under test.
 *
 * 1. replaces the wall clock that msolve feeds to srand(), so that every run is
 *    a function of (code, input, VP_TIME). Time advances by one second per call:
 *    restarts pick fresh primes, as they eventually do under the real clock.
 * 2. with VP_FILL=b, fills the head of fresh and freed heap blocks with byte b,
 *    so that reads of uninitialised or freed memory become visible and
 *    repeatable (linked with -Wl,--wrap). */
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <malloc.h>
time_t time(time_t *t)
{
    static long v = -1;
    if (v < 0) {
        const char *s = getenv("VP_TIME");
        v = s ? atol(s) : 1700000000L;
    } else {
        v++;
    }
    if (t) *t = (time_t)v;
    return (time_t)v;
}
#ifdef VP_WRAP
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static int fill = -1;
__attribute__((constructor)) static void init_fill(void)
{
    const char *s = getenv("VP_FILL");
    fill = s ? atoi(s) & 255 : -1;
}
#define CAP 65536
void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    if (p && fill >= 0) memset(p, fill, n < CAP ? n : CAP);
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    if (fill < 0) return __real_realloc(q, n);
    if (!q) return __wrap_malloc(n);
    size_t o = malloc_usable_size(q);
    char *p = __real_realloc(q, n);
    if (p && n > o) memset(p + o, fill, n - o < CAP ? n - o : CAP);
    return p;
}
void __wrap_free(void *q)
{
    if (q && fill >= 0) {
        size_t o = malloc_usable_size(q);
        memset(q, fill, o < 4096 ? o : 4096);
    }
    __real_free(q);
}
#endif
