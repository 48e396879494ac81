/* Contracts for spot_step (C02, C03).  spot_step and spot_quantile are the
 * real functions of /repo/src/spot.c; tail_push / peaks_push / ubend_push,
 * tail_fit and tail_quantile are used through their contracts. */
#include "window.h"

u64 g_k;
/* version of the window contents: every insertion makes a new one */
u64 g_ver;

/* records of the last fit and of the last tail quantile */
u64 g_fit_ver;
double g_fit_gamma, g_fit_sigma;
_Bool g_tq;
double g_tq_gamma, g_tq_sigma, g_tq_s, g_tq_q, g_tq_r;
#define GHOSTS                                                                \
    g_ver, g_fit_ver, g_fit_gamma, g_fit_sigma, g_tq, g_tq_gamma, g_tq_sigma, \
        g_tq_s, g_tq_q, g_tq_r

#define PUSH_FRAME(P)                                                         \
    (P)->e, (P)->e2, (P)->min, (P)->max, (P)->container.cursor,               \
        (P)->container.filled, (P)->container.last_erased_data,               \
        (P)->container.data[(P)->container.cursor]

void tail_push(struct Tail *tail, double x)
WINDOW_PUSH_CONTRACT(&(tail->peaks.container), x)
__CPROVER_assigns(PUSH_FRAME(&(tail->peaks)), g_ver)
__CPROVER_ensures(g_ver == __CPROVER_old(g_ver) + 1)
;
void peaks_push(struct Peaks *peaks, double x)
WINDOW_PUSH_CONTRACT(&(peaks->container), x)
__CPROVER_assigns(PUSH_FRAME(peaks), g_ver)
__CPROVER_ensures(g_ver == __CPROVER_old(g_ver) + 1)
;

double tail_fit(struct Tail *tail)
__CPROVER_requires(UB_SIZE(&tail->peaks.container) >= 1)
__CPROVER_assigns(tail->gamma, tail->sigma, g_fit_ver, g_fit_gamma, g_fit_sigma)
__CPROVER_ensures(g_fit_ver == g_ver)
__CPROVER_ensures(SAME(tail->gamma, g_fit_gamma))
__CPROVER_ensures(SAME(tail->sigma, g_fit_sigma))
;

double tail_quantile(struct Tail const *tail, double s, double q)
__CPROVER_assigns(g_tq, g_tq_gamma, g_tq_sigma, g_tq_s, g_tq_q, g_tq_r)
__CPROVER_ensures(g_tq && SAME(g_tq_gamma, tail->gamma) &&
                  SAME(g_tq_sigma, tail->sigma) && SAME(g_tq_s, s) &&
                  SAME(g_tq_q, q) && SAME(g_tq_r, __CPROVER_return_value))
;

/* the verdict of the statement (C02) */
#define SP_NAN(x) ISNAN(x)
#define SP_ANOM(s, x)                                                         \
    (!ISNAN(x) && (s)->discard_anomalies &&                                   \
     ((s)->low ? (x) < (s)->anomaly_threshold                                 \
               : (x) > (s)->anomaly_threshold))
#define SP_EXC(s, x)                                                          \
    (!ISNAN(x) && !SP_ANOM(s, x) &&                                           \
     ((s)->low ? (x) <= (s)->excess_threshold : (x) >= (s)->excess_threshold))

/* distance to the excess threshold on the monitored side */
#define DIST(s, x)                                                            \
    ((s)->low ? -((x) - (s)->excess_threshold) : ((x) - (s)->excess_threshold))

/* ghost copies of the state before the call */
struct Spot old;
_Bool old_nan, old_anom, old_exc;
double old_dist, old_dk;
u64 old_ver;

int spot_step(struct Spot *spot, double x)
__CPROVER_requires(__CPROVER_rw_ok(spot, sizeof(*spot)))
__CPROVER_requires(SPOT_INV(spot) && UB_INV(&spot->tail.peaks.container))
__CPROVER_requires(spot->discard_anomalies == 0 || spot->discard_anomalies == 1)
__CPROVER_requires(__CPROVER_rw_ok(spot->tail.peaks.container.data,
                  spot->tail.peaks.container.capacity * sizeof(double)))
__CPROVER_requires(spot->excess_threshold != _INFINITY &&
                   spot->excess_threshold != -_INFINITY)
#ifdef P_C02
__CPROVER_assigns(__CPROVER_object_whole(spot),
                  __CPROVER_object_whole(spot->tail.peaks.container.data),
                  GHOSTS)
__CPROVER_ensures(!old_nan || __CPROVER_return_value == -ERR_DATA_IS_NAN)
__CPROVER_ensures(!old_anom || __CPROVER_return_value == ANOMALY)
__CPROVER_ensures(!old_exc || __CPROVER_return_value == EXCESS)
__CPROVER_ensures(old_nan || old_anom || old_exc ||
                  __CPROVER_return_value == NORMAL)
#endif
#ifdef P_C03
/* frame: nothing of the detector but these, nothing outside of it */
__CPROVER_assigns(spot->n, spot->Nt, spot->anomaly_threshold,
                  spot->tail.gamma, spot->tail.sigma,
                  PUSH_FRAME(&spot->tail.peaks), GHOSTS)
/* NaN data, ANOMALY, NORMAL: nothing of the model changes ... */
__CPROVER_ensures(__CPROVER_return_value == EXCESS ||
    (spot->Nt == old.Nt && SAME(spot->anomaly_threshold, old.anomaly_threshold) &&
     SAME(spot->tail.gamma, old.tail.gamma) &&
     SAME(spot->tail.sigma, old.tail.sigma) &&
     SAME(spot->tail.peaks.e, old.tail.peaks.e) &&
     SAME(spot->tail.peaks.e2, old.tail.peaks.e2) &&
     SAME(spot->tail.peaks.min, old.tail.peaks.min) &&
     SAME(spot->tail.peaks.max, old.tail.peaks.max) &&
     spot->tail.peaks.container.cursor == old.tail.peaks.container.cursor &&
     spot->tail.peaks.container.filled == old.tail.peaks.container.filled &&
     SAME(spot->tail.peaks.container.last_erased_data,
          old.tail.peaks.container.last_erased_data) &&
     SAME(spot->tail.peaks.container.data[g_k], old_dk)))
/* ... and the number of seen values only changes for NORMAL and EXCESS */
__CPROVER_ensures(spot->n ==
    ((__CPROVER_return_value == NORMAL || __CPROVER_return_value == EXCESS)
         ? old.n + 1 : old.n))
/* EXCESS */
__CPROVER_ensures(__CPROVER_return_value != EXCESS || spot->Nt == old.Nt + 1)
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    NUMEQ(spot->tail.peaks.container.data[old.tail.peaks.container.cursor],
         old_dist))
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    g_k == old.tail.peaks.container.cursor ||
    SAME(spot->tail.peaks.container.data[g_k], old_dk))
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    (UB_INV(&spot->tail.peaks.container) && g_ver == old_ver + 1 &&
     (spot->tail.peaks.container.cursor ==
      (old.tail.peaks.container.cursor + 1 == old.tail.peaks.container.capacity
           ? 0UL : old.tail.peaks.container.cursor + 1))))
/* refitted on the new window, threshold = quantile of the refitted model */
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    (g_fit_ver == g_ver && SAME(spot->tail.gamma, g_fit_gamma) &&
     SAME(spot->tail.sigma, g_fit_sigma)))
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    (g_tq && SAME(g_tq_gamma, spot->tail.gamma) &&
     SAME(g_tq_sigma, spot->tail.sigma) && SAME(g_tq_q, spot->q)))
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    SAME(g_tq_s, (double)spot->Nt / (double)spot->n))
__CPROVER_ensures(__CPROVER_return_value != EXCESS ||
    NUMEQ(spot->anomaly_threshold,
          spot->excess_threshold + spot->__up_down * g_tq_r))
#endif
;

double nondet_double(void);
u64 nondet_u64(void);

void h_step(void) {
    struct Spot in_s;
    double in_x = nondet_double();
    u64 in_cap = nondet_u64();
    __CPROVER_assume(in_cap >= 1 && in_cap <= MAXCAP);
    in_s.tail.peaks.container.capacity = in_cap;
    in_s.tail.peaks.container.data = __CPROVER_allocate(in_cap * 8, 0);
    g_k = nondet_u64();
    __CPROVER_assume(g_k < in_cap);
    /* inputs of a counterexample */
    double in_at = in_s.anomaly_threshold, in_et = in_s.excess_threshold;
    double in_q = in_s.q, in_gamma = in_s.tail.gamma, in_sigma = in_s.tail.sigma;
    int in_low = in_s.low, in_disc = in_s.discard_anomalies;
    u64 in_n = in_s.n, in_Nt = in_s.Nt, in_cursor = in_s.tail.peaks.container.cursor;
    int in_filled = in_s.tail.peaks.container.filled;

    old = in_s;
    old_nan = SP_NAN(in_x);
    old_anom = SP_ANOM(&in_s, in_x);
    old_exc = SP_EXC(&in_s, in_x);
    old_dist = DIST(&in_s, in_x);
    old_dk = in_s.tail.peaks.container.data[g_k];
    g_ver = 1;
    g_fit_ver = 0;
    g_tq = 0;
    old_ver = g_ver;
    int r = spot_step(&in_s, in_x);
    PROBE(r == ANOMALY, "an anomaly is reachable");
    PROBE(r == EXCESS, "an excess is reachable");
    PROBE(r == EXCESS && in_s.low, "a low excess is reachable");
    PROBE(r == NORMAL, "a normal step is reachable");
    PROBE(r == -ERR_DATA_IS_NAN, "NaN data is reachable");
}
