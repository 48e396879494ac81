/* C01: spot_init.  The real spot_init, tail_init, peaks_init and ubend_init
 * are verified together against the contract of xmalloc (proved in C11). */
#include "spec.h"
u64 g_k;
u64 g_calls, g_size;
void *g_block;

void *xmalloc(unsigned long size)
__CPROVER_assigns(g_calls, g_size, g_block)
__CPROVER_ensures(__CPROVER_return_value == 0 ||
                  __CPROVER_is_fresh(__CPROVER_return_value, size))
__CPROVER_ensures(g_calls == __CPROVER_old(g_calls) + 1 && g_size == size &&
                  g_block == __CPROVER_return_value)
;
void xfree(void *p)
__CPROVER_requires(0) /* creation releases nothing */
;

_Bool lv_ok, q_ok;
#define MEM_OK(c)                                                             \
    (g_calls == 1 && g_block != 0 && (c) >= 1 && (c) <= MAXCAP &&             \
     g_size == (c) * sizeof(double))

int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
              double level, unsigned long max_excess)
__CPROVER_requires(__CPROVER_rw_ok(spot, sizeof(*spot)) && g_calls == 0)
__CPROVER_requires(max_excess <= MAXCAP || max_excess > (~0UL) / 8)
__CPROVER_assigns(__CPROVER_object_whole(spot), g_calls, g_size, g_block)
/* the answer */
__CPROVER_ensures(lv_ok || __CPROVER_return_value == -ERR_LEVEL_OUT_OF_BOUNDS)
__CPROVER_ensures(!lv_ok || q_ok ||
                  __CPROVER_return_value == -ERR_Q_OUT_OF_BOUNDS)
__CPROVER_ensures((lv_ok && q_ok) || g_calls == 0)
__CPROVER_ensures(!(lv_ok && q_ok) ||
    __CPROVER_return_value ==
        (MEM_OK(max_excess) ? 0 : -ERR_MEMORY_ALLOCATION_FAILED))
__CPROVER_ensures(!(lv_ok && q_ok && max_excess >= 1 && max_excess <= MAXCAP) ||
    (g_calls == 1 && g_size == max_excess * sizeof(double)))
/* the created detector */
__CPROVER_ensures(__CPROVER_return_value != 0 ||
    (spot->q == q && spot->level == level))
__CPROVER_ensures(__CPROVER_return_value != 0 ||
    (spot->low == (low != 0) &&
     spot->discard_anomalies == (discard_anomalies != 0) && SPOT_INV(spot)))
__CPROVER_ensures(__CPROVER_return_value != 0 || (spot->n == 0 && spot->Nt == 0))
__CPROVER_ensures(__CPROVER_return_value != 0 ||
    (UB_INV(&spot->tail.peaks.container) &&
     spot->tail.peaks.container.capacity == max_excess &&
     (void *)spot->tail.peaks.container.data == g_block &&
     spot->tail.peaks.container.cursor == 0 &&
     spot->tail.peaks.container.filled == 0 &&
     ISNAN(spot->tail.peaks.container.last_erased_data)))
__CPROVER_ensures(__CPROVER_return_value != 0 ||
    (ISNAN(spot->anomaly_threshold) && ISNAN(spot->excess_threshold) &&
     ISNAN(spot->tail.gamma) && ISNAN(spot->tail.sigma)))
__CPROVER_ensures(__CPROVER_return_value != 0 ||
    (spot->tail.peaks.e == 0.0 && spot->tail.peaks.e2 == 0.0))
;

double nondet_double(void);
u64 nondet_u64(void);
int nondet_int(void);
void h_create(void) {
    struct Spot s;
    double in_q = nondet_double(), in_level = nondet_double();
    int in_low = nondet_int(), in_disc = nondet_int();
    u64 in_max = nondet_u64();
    lv_ok = in_level >= 0.0 && in_level < 1.0;
    q_ok = in_q > 0.0 && in_q < 1.0 - in_level;
    g_calls = 0;
    int r = spot_init(&s, in_q, in_low, in_disc, in_level, in_max);
    PROBE(r == 0, "creation succeeds");
    PROBE(r == 0 && s.low, "creation of a low detector");
    PROBE(r == -ERR_MEMORY_ALLOCATION_FAILED, "memory error");
    PROBE(r == -ERR_MEMORY_ALLOCATION_FAILED && g_calls == 1, "allocator fails");
    PROBE(r == -ERR_LEVEL_OUT_OF_BOUNDS, "level error");
    PROBE(r == -ERR_LEVEL_OUT_OF_BOUNDS && in_level != in_level, "NaN level");
    PROBE(r == -ERR_Q_OUT_OF_BOUNDS, "q error");
}
