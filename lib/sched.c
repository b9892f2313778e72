/* A deterministic replacement of the OpenMP runtime: the threads of a parallel
 * region are coroutines of one thread, and a seeded scheduler decides at every
 * instrumented memory access, atomic operation, allocation and synchronisation
 * (the code under test is compiled with -fsanitize=thread, the hooks are the
 * ones below) whether another thread goes on. So a schedule is an input like
 * any other: VP_SCHED (seed) and VP_RATE (mean number of accesses between two
 * preemptions) determine it, and a failing schedule can be replayed. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <sys/mman.h>

#define STK (16UL << 20)
#define MAXT 64
typedef struct ws { long next, end, incr, chunk; unsigned long un, ue, ui, uc; int up, init, cnt; } ws_t;
typedef struct team { int n, arrived, live; long gen; ws_t *ws; int nws; struct team *outer; } team_t;
typedef struct co {
    void *sp; char *stk; int id, done; uint64_t frozen; const void *wait;
    void (*fn)(void *); void *data;
    team_t *team; int wsn;
} co_t;
static co_t cos_[MAXT], *cur = &cos_[0];
static int nco = 1, par, defn = 1;
static uint64_t st = 88172645463325252ULL, now;
static long gap, rate = 200, regions, switches;
static int init_done;

static uint64_t rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static void setup(void)
{
    const char *s;
    if (init_done) return;
    init_done = 1;
    if ((s = getenv("VP_SCHED"))) st = (strtoull(s, 0, 10) + 1) * 0x9E3779B97F4A7C15ULL;
    if ((s = getenv("VP_RATE"))) rate = atol(s);
    if ((s = getenv("OMP_NUM_THREADS"))) defn = atoi(s);
    if (!st) st = 1;
    for (int i = 0; i < 10; i++) rnd();
}
__attribute__((destructor)) static void report(void)
{
    const char *s = getenv("VP_SCHED_OUT");
    if (s) { FILE *f = fopen(s, "w"); if (f) { fprintf(f, "%ld %ld\n", regions, switches); fclose(f); } }
}
static void newgap(void) { gap = rate <= 1 ? 0 : (long)(rnd() % (2 * rate)); }

/* ---- switching ---- */
void vp_switch(void **from, void *to);
__asm__(".text\n.globl vp_switch\nvp_switch:\n"
        "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
static void go(co_t *c)
{
    if (c == cur) return;
    co_t *o = cur;
    cur = c;
    switches++;
    vp_switch(&o->sp, c->sp);
}
static co_t *pick(void)
{
    int k = 0, l = 0;
    co_t *a[MAXT], *b[MAXT];
    for (int i = 0; i < nco; i++) {
        if (cos_[i].done || cos_[i].wait) continue;
        b[l++] = &cos_[i];
        if (cos_[i].frozen <= now) a[k++] = &cos_[i];
    }
    if (k) return a[rnd() % k];
    return l ? b[rnd() % l] : NULL;
}
static void yield_(int must)
{
    newgap();
    if (!must && rnd() % 4 == 0)
        /* hold this thread back for a while */
        cur->frozen = now + (1ULL << (rnd() % 18));
    co_t *c = pick();
    if (!c) {
        fputs("deadlock: every thread waits\n", stderr);
        _exit(97);
    }
    go(c);
}
static inline void ev(void)
{
    if (par) { now++; if (--gap < 0) yield_(0); }
}
static void sync_point(void)
{
    if (par) { now++; if (rnd() % 3 == 0) yield_(0); }
}
void vp_sched_point(void) { ev(); }
static void block(const void *w)
{
    cur->wait = w;
    yield_(1);
}
static void wake(const void *w)
{
    for (int i = 0; i < nco; i++) if (cos_[i].wait == w) cos_[i].wait = NULL;
}

/* ---- parallel regions ---- */
static void entry(void)
{
    co_t *c = cur;
    c->fn(c->data);
    c->done = 1;
    c->team->live--;
    if (!c->team->live) wake(c->team);
    for (;;) yield_(1);
}
static void run_region(void (*fn)(void *), void *data, unsigned n, ws_t *pre)
{
    setup();
    if (!n) n = defn;
    if (n > MAXT) n = MAXT;
    team_t t = {0};
    ws_t *w = NULL;
    co_t *me = cur;
    team_t *ot = me->team;
    int owsn = me->wsn, oid = me->id;
    if (pre) { t.ws = malloc(sizeof(ws_t)); t.ws[0] = *pre; t.nws = 1; }
    t.outer = ot;
    me->team = &t;
    me->wsn = pre ? 1 : 0;
    me->id = 0;
    if (par || n <= 1) {
        t.n = 1;
        fn(data);
    } else {
        t.n = n;
        t.live = n - 1;
        nco = n;
        regions++;
        for (unsigned i = 1; i < n; i++) {
            co_t *c = &cos_[i];
            if (!c->stk) {
                c->stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (c->stk == MAP_FAILED) { fputs("Cannot allocate stack\n", stderr); _exit(98); }
            }
            c->id = i; c->done = 0; c->frozen = 0; c->wait = NULL; c->fn = fn; c->data = data; c->team = &t; c->wsn = pre ? 1 : 0;
            void **sp = (void **)(c->stk + STK - 64);
            *--sp = NULL;               /* alignment as after a call */
            *--sp = (void *)entry;
            for (int k = 0; k < 6; k++) *--sp = NULL;
            c->sp = sp;
        }
        me->frozen = 0; me->wait = NULL;
        par = 1;
        newgap();
        yield_(1);
        fn(data);
        while (t.live) block(&t);
        par = 0;
        nco = 1;
    }
    free(t.ws);
    me->team = ot;
    me->wsn = owsn;
    me->id = oid;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_region(fn, data, n, NULL); }
static ws_t mk(long s, long e, long i, long c)
{
    ws_t w = {0};
    w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; w.init = 1;
    return w;
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
    { ws_t w = mk(s, e, i, c); run_region(fn, d, n, &w); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) \
    { ws_t w = mk(s, e, i, 1); run_region(fn, d, n, &w); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

static team_t single = {.n = 1};
static ws_t *getws(int k)
{
    team_t *t = cur->team ? cur->team : &single;
    if (k >= t->nws) {
        t->ws = realloc(t->ws, (k + 1) * sizeof(ws_t));
        memset(t->ws + t->nws, 0, (k + 1 - t->nws) * sizeof(ws_t));
        t->nws = k + 1;
    }
    return &t->ws[k];
}
static bool nxt(long *s, long *e)
{
    sync_point();
    ws_t *w = getws(cur->wsn - 1);
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    *s = w->next;
    *e = w->next + w->chunk * w->incr;
    if (w->incr > 0 ? *e > w->end : *e < w->end) *e = w->end;
    w->next = *e;
    return true;
}
static bool unxt(unsigned long *s, unsigned long *e)
{
    sync_point();
    ws_t *w = getws(cur->wsn - 1);
    if (w->up ? w->un >= w->ue : w->un <= w->ue) return false;
    *s = w->un;
    if (w->up) *e = w->ue - w->un <= w->uc * w->ui ? w->ue : w->un + w->uc * w->ui;
    else *e = w->un - w->ue <= w->uc * -w->ui ? w->ue : w->un + w->uc * w->ui;
    w->un = *e;
    return true;
}
static bool start(long s, long e, long i, long c, long *a, long *b)
{
    ws_t *w = getws(cur->wsn++);
    if (!w->init) *w = mk(s, e, i, c);
    return nxt(a, b);
}
#define LOOP(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return start(s, e, i, c, a, b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return nxt(a, b); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) \
{ ws_t *w = getws(cur->wsn++); if (!w->init) { w->init = 1; w->up = up; w->un = s; w->ue = e; w->ui = i; w->uc = c < 1 ? 1 : c; } return unxt(a, b); } \
bool GOMP_loop_ull_##name##_next(unsigned long *a, unsigned long *b) { return unxt(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return start(s, e, i, 1, a, b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return nxt(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
bool GOMP_single_start(void)
{
    ws_t *w = getws(cur->wsn++);
    sync_point();
    return w->cnt++ == 0;
}
unsigned GOMP_sections_next(void)
{
    sync_point();
    ws_t *w = getws(cur->wsn - 1);
    return w->next > w->end ? 0 : (unsigned)w->next++;
}
unsigned GOMP_sections_start(unsigned n)
{
    ws_t *w = getws(cur->wsn++);
    if (!w->init) *w = mk(1, n, 1, 1);
    return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned f)
{
    ws_t w = mk(1, c, 1, 1);
    run_region(fn, d, n, &w);
}
void GOMP_sections_end_nowait(void) {}
void GOMP_barrier(void)
{
    team_t *t = cur->team;
    if (!t || t->n == 1) return;
    long g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake(&t->gen); sync_point(); return; }
    while (t->gen == g) block(&t->gen);
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool c, unsigned f)
{
    char *b = malloc(sz + al), *a = (char *)(((uintptr_t)b + al - 1) / al * al);
    if (cpy) cpy(a, data); else memcpy(a, data, sz);
    fn(a);
    free(b);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { sync_point(); }

/* ---- locks ---- */
typedef struct { int held; co_t *owner; } lock_t;
static lock_t crit, atom;
static struct { void **p; lock_t l; } named[64];
static int nnamed;
static void lock(lock_t *l)
{
    sync_point();
    while (l->held) block(l);
    l->held = 1;
    l->owner = cur;
}
static void unlock(lock_t *l)
{
    l->held = 0;
    wake(l);
    sync_point();
}
static lock_t *name(void **p)
{
    for (int i = 0; i < nnamed; i++) if (named[i].p == p) return &named[i].l;
    if (nnamed == 64) abort();
    named[nnamed].p = p;
    return &named[nnamed++].l;
}
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(name(p)); }
void GOMP_critical_name_end(void **p) { unlock(name(p)); }
void GOMP_atomic_start(void) { lock(&atom); }
void GOMP_atomic_end(void) { unlock(&atom); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void omp_init_lock(int *l) { *l = 0; }
void omp_destroy_lock(int *l) {}
void omp_set_lock(int *l) { sync_point(); while (*l) block(l); *l = 1; }
void omp_unset_lock(int *l) { *l = 0; wake(l); sync_point(); }
int omp_test_lock(int *l) { sync_point(); if (*l) return 0; *l = 1; return 1; }

int omp_get_thread_num(void) { return cur->id; }
int omp_get_num_threads(void) { return cur->team ? cur->team->n : 1; }
int omp_get_max_threads(void) { setup(); return defn; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return par; }
int omp_get_level(void) { return par; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int x) {}
void omp_set_nested(int x) {}
void omp_set_max_active_levels(int x) {}
void omp_set_num_threads(int n) { setup(); if (n > 0) defn = n; }
double omp_get_wtime(void) { return 0; }
double omp_get_wtick(void) { return 1e-9; }

/* ---- hooks of the instrumentation ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
#define H(x) void __tsan_##x(void *p) { ev(); }
#define RW(n) H(read##n) H(write##n) H(unaligned_read##n) H(unaligned_write##n) H(volatile_read##n) H(volatile_write##n) \
    H(unaligned_volatile_read##n) H(unaligned_volatile_write##n)
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { ev(); }
void __tsan_write_range(void *p, unsigned long n) { ev(); }
#define AT(n, t) \
t __tsan_atomic##n##_load(const volatile t *p, int o) { sync_point(); return *p; } \
void __tsan_atomic##n##_store(volatile t *p, t v, int o) { sync_point(); *p = v; sync_point(); } \
t __tsan_atomic##n##_exchange(volatile t *p, t v, int o) { sync_point(); t r = *p; *p = v; sync_point(); return r; } \
t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int o) { sync_point(); t r = *p; *p = r + v; sync_point(); return r; } \
t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int o) { sync_point(); t r = *p; *p = r - v; sync_point(); return r; } \
t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int o) { sync_point(); t r = *p; *p = r & v; sync_point(); return r; } \
t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int o) { sync_point(); t r = *p; *p = r | v; sync_point(); return r; } \
t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int o) { sync_point(); t r = *p; *p = r ^ v; sync_point(); return r; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) \
{ sync_point(); if (*p == *e) { *p = v; sync_point(); return 1; } *e = *p; sync_point(); return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) \
{ return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, f); } \
t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int o, int f) \
{ sync_point(); t r = *p; if (r == e) *p = v; sync_point(); return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { sync_point(); }
void __tsan_atomic_signal_fence(int o) {}
