/* C11: allocation discipline.  vp_malloc / vp_free stand for whatever the user
 * installs: they record how they are called. */
#include "spec.h"
u64 g_k;
u64 g_mcalls, g_msize, g_fcalls;
void *g_block, *g_freed;
_Bool g_has_m, g_has_f;
_Bool nondet_bool(void);
u64 nondet_u64(void);
int nondet_int(void);
double nondet_double(void);

void *vp_malloc(__SIZE_TYPE__ n) {
    g_mcalls++;
    g_msize = n;
    g_block = (n >= 8 && n <= MAXCAP * 8 && nondet_bool())
                  ? __CPROVER_allocate(n, 0) : (void *)0;
    return g_block;
}
void vp_free(void *p) {
    g_fcalls++;
    g_freed = p;
}

void *xmalloc(unsigned long size)
__CPROVER_assigns(g_mcalls, g_msize, g_block)
/* no allocator: nothing is obtained, nothing is called */
__CPROVER_ensures(g_has_m || (__CPROVER_return_value == 0 &&
                              g_mcalls == __CPROVER_old(g_mcalls)))
/* otherwise exactly one request of exactly this size, its answer returned */
__CPROVER_ensures(!g_has_m || (g_mcalls == __CPROVER_old(g_mcalls) + 1 &&
    g_msize == size && __CPROVER_return_value == g_block))
;
void xfree(void *p)
__CPROVER_assigns(g_fcalls, g_freed)
__CPROVER_ensures(g_has_f || g_fcalls == __CPROVER_old(g_fcalls))
__CPROVER_ensures(!g_has_f || (g_fcalls == __CPROVER_old(g_fcalls) + 1 &&
                               g_freed == p))
;
static void install(void) {
    g_has_m = nondet_bool();
    g_has_f = nondet_bool();
    if (nondet_bool()) /* an earlier installation has no effect */
        set_allocators(nondet_bool() ? vp_malloc : 0, nondet_bool() ? vp_free : 0);
    set_allocators(g_has_m ? vp_malloc : 0, g_has_f ? vp_free : 0);
    g_mcalls = g_fcalls = 0;
    g_block = g_freed = 0;
}
void h_xmalloc(void) {
    install();
    u64 in_size = nondet_u64();
    void *p = xmalloc(in_size);
    PROBE(p != 0, "a block is obtained");
    PROBE(p == 0 && g_has_m, "a request is refused");
    PROBE(!g_has_m, "no allocator");
}
void h_xfree(void) {
    install();
    void *p = __CPROVER_allocate(8, 0);
    xfree(p);
    PROBE(g_fcalls == 1, "released");
    PROBE(!g_has_f, "no release function");
}
#define A(c, t) __CPROVER_assert(c, t)
/* the life of a detector: creation, release, release again */
void h_life(void) {
    install();
    struct Spot s, zero = {0};
    double in_q = nondet_double(), in_level = nondet_double();
    int in_low = nondet_int(), in_disc = nondet_int();
    u64 in_max = nondet_u64();
    _Bool pre = nondet_bool();
    if (pre)
        s = zero; /* structure zeroed by its owner */
    int r = spot_init(&s, in_q, in_low, in_disc, in_level, in_max);
    u64 m = g_mcalls;
    A(r != 0 || (m == 1 && g_msize == in_max * 8 && in_max >= 1 &&
                 in_max <= (~0UL) / 8 && g_block != 0),
      "life: success is exactly one request of max_excess doubles");
    A(m <= 1, "life: never more than one request");
    A(r == 0 || g_block == 0, "life: no block is lost by a failed creation");
    A(g_fcalls == 0, "life: creation releases nothing");
    A(!(r != 0 && m == 1) || r == -ERR_MEMORY_ALLOCATION_FAILED,
      "life: a refused request is reported");
    void *b = g_block;
    if (r == 0 || pre || r == -ERR_MEMORY_ALLOCATION_FAILED) {
        spot_free(&s);
        A(g_fcalls == ((b && g_has_f) ? 1 : 0), "life: released exactly once");
        A(g_fcalls == 0 || g_freed == b, "life: the block itself is released");
        spot_free(&s);
        A(g_fcalls == ((b && g_has_f) ? 1 : 0), "life: no second release");
        A(g_mcalls == m, "life: releasing requests nothing");
    }
    PROBE(r == 0 && g_fcalls == 1, "created and released");
    PROBE(r == 0 && !g_has_f, "no release function");
    PROBE(r == -ERR_MEMORY_ALLOCATION_FAILED && g_has_m && in_max == 5, "allocator refuses");
    PROBE(r == -ERR_MEMORY_ALLOCATION_FAILED && !g_has_m, "no allocator");
    PROBE(r == -ERR_Q_OUT_OF_BOUNDS && pre, "refused parameters, then released");
}
