/* C08: self-composition of the real spot_step / spot_quantile /
 * spot_probability on an upper detector and on its mirror image.  The tail
 * functions are used through contracts that say their results are determined
 * by the tail state and the values of their arguments. */
#include "lemmas.h"
u64 g_k;
/* Each tail function is described by what determines its result: a call on
 * the mirrored detector with the same tail state and equal arguments gives
 * the same result.  The ghost record holds the last call on the upper one.
 * The tail state is identified by the ghost stamp of its last insertion. */
u64 g_side;          /* 0: the upper detector runs, 1: its mirror image */
u64 g_state[2];      /* stamp of the tail contents of each detector */
_Bool r_push, r_fit, r_tq, r_tp;     /* a record exists */
double rp_x; u64 rp_before, rp_after;
u64 rf_state; double rf_g, rf_s;
double rq_g, rq_s, rq_w, rq_q, rq_r;
double rb_g, rb_s, rb_w, rb_d, rb_r;

#define TAILF(P)                                                              \
    (P)->e, (P)->e2, (P)->min, (P)->max, (P)->container.cursor,               \
        (P)->container.filled, (P)->container.last_erased_data,               \
        (P)->container.data[(P)->container.cursor]
#define PUSHC(P, X)                                                           \
    __CPROVER_requires(UB_INV(&(P)->container))                               \
    __CPROVER_requires(__CPROVER_w_ok((P)->container.data,                    \
                           (P)->container.capacity * sizeof(double)))         \
    __CPROVER_assigns(TAILF(P), g_state[g_side], r_push, rp_x, rp_before,     \
                      rp_after)                                               \
    __CPROVER_ensures(SAME((P)->container.data[__CPROVER_old(                 \
                               (P)->container.cursor)], X))                   \
    __CPROVER_ensures((P)->container.cursor ==                                \
        (__CPROVER_old((P)->container.cursor) + 1 == (P)->container.capacity  \
             ? 0UL : __CPROVER_old((P)->container.cursor) + 1))               \
    __CPROVER_ensures(g_side != 0 || (r_push && SAME(rp_x, X) &&              \
        rp_before == __CPROVER_old(g_state[g_side]) &&                        \
        rp_after == g_state[0]))                                              \
    __CPROVER_ensures(g_side != 1 || (r_push == __CPROVER_old(r_push) &&      \
        SAME(rp_x, __CPROVER_old(rp_x)) &&                                    \
        rp_before == __CPROVER_old(rp_before) &&                              \
        rp_after == __CPROVER_old(rp_after) &&                                \
        (!(r_push && NUMEQ(rp_x, X) &&                                        \
           rp_before == __CPROVER_old(g_state[g_side])) ||                    \
         g_state[1] == rp_after)))

void tail_push(struct Tail *tail, double x) PUSHC(&tail->peaks, x);
void peaks_push(struct Peaks *peaks, double x) PUSHC(peaks, x);
double tail_fit(struct Tail *tail)
__CPROVER_assigns(tail->gamma, tail->sigma)
__CPROVER_assigns(g_side == 0 : r_fit, rf_state, rf_g, rf_s)
__CPROVER_ensures(g_side != 0 || (r_fit && rf_state == g_state[0] &&
    SAME(rf_g, tail->gamma) && SAME(rf_s, tail->sigma)))
__CPROVER_ensures(g_side != 1 || !(r_fit && rf_state == g_state[1]) ||
    (SAME(rf_g, tail->gamma) && SAME(rf_s, tail->sigma)))
;
double tail_quantile(struct Tail const *tail, double s, double q)
__CPROVER_assigns(g_side == 0 : r_tq, rq_g, rq_s, rq_w, rq_q, rq_r)
__CPROVER_ensures(g_side != 0 || (r_tq && SAME(rq_g, tail->gamma) &&
    SAME(rq_s, tail->sigma) && SAME(rq_w, s) && SAME(rq_q, q) &&
    SAME(rq_r, __CPROVER_return_value)))
__CPROVER_ensures(g_side != 1 || !(r_tq && SAME(rq_g, tail->gamma) &&
    SAME(rq_s, tail->sigma) && SAME(rq_w, s) && SAME(rq_q, q)) ||
    SAME(rq_r, __CPROVER_return_value))
;
#ifdef WITH_QUANTILE
/* the mirror property of spot_quantile (proved by h_mquant), used at its call
 * sites in spot_step */
_Bool r_sq;
u64 rs_Nt, rs_n;
double rs_g, rs_s, rs_et, rs_q, rs_r;
double spot_quantile(struct Spot const *spot, double q)
__CPROVER_assigns(g_side == 0 : r_sq, rs_Nt, rs_n, rs_g, rs_s, rs_et, rs_q, rs_r)
__CPROVER_ensures(g_side != 0 || (r_sq && rs_Nt == spot->Nt && rs_n == spot->n &&
    SAME(rs_g, spot->tail.gamma) && SAME(rs_s, spot->tail.sigma) &&
    SAME(rs_et, spot->excess_threshold) && SAME(rs_q, q) &&
    SAME(rs_r, __CPROVER_return_value)))
__CPROVER_ensures(g_side != 1 || !(r_sq && rs_Nt == spot->Nt && rs_n == spot->n &&
    SAME(rs_g, spot->tail.gamma) && SAME(rs_s, spot->tail.sigma) &&
    NUMEQ(rs_et, -spot->excess_threshold) && SAME(rs_q, q)) ||
    NUMEQ(rs_r, -__CPROVER_return_value))
;
#endif
double tail_probability(struct Tail const *tail, double s, double d)
__CPROVER_assigns(g_side == 0 : r_tp, rb_g, rb_s, rb_w, rb_d, rb_r)
__CPROVER_ensures(g_side != 0 || (r_tp && SAME(rb_g, tail->gamma) &&
    SAME(rb_s, tail->sigma) && SAME(rb_w, s) && SAME(rb_d, d) &&
    SAME(rb_r, __CPROVER_return_value)))
__CPROVER_ensures(g_side != 1 || !(r_tp && SAME(rb_g, tail->gamma) &&
    SAME(rb_s, tail->sigma) && SAME(rb_w, s) && NUMEQ(rb_d, d)) ||
    SAME(rb_r, __CPROVER_return_value))
;

double nondet_double(void);
u64 nondet_u64(void);

struct Spot a, b;
double in_x, in_et, in_at;
u64 in_cap;
static void pair(void) {
    struct Spot s;
    a = s;
    in_cap = nondet_u64();
    in_x = nondet_double();
    __CPROVER_assume(in_cap >= 1 && in_cap <= MAXCAP);
    a.low = 0;
    a.__up_down = 1.0;
    a.tail.peaks.container.capacity = in_cap;
    __CPROVER_assume(UB_INV(&a.tail.peaks.container));
    __CPROVER_assume(a.discard_anomalies == 0 || a.discard_anomalies == 1);
    __CPROVER_assume(a.n >= 1 && a.n <= (1UL << 53) && a.Nt <= a.n);
    in_et = a.excess_threshold;
    in_at = a.anomaly_threshold;
    b = a;
    b.low = 1;
    b.__up_down = -1.0;
    b.excess_threshold = -a.excess_threshold;
    b.anomaly_threshold = -a.anomaly_threshold;
    a.tail.peaks.container.data = __CPROVER_allocate(in_cap * 8, 0);
    b.tail.peaks.container.data = __CPROVER_allocate(in_cap * 8, 0);
    g_state[0] = g_state[1] = 0;
    g_side = 0;
    r_push = r_fit = r_tq = r_tp = 0;
}
#define A(c, t) __CPROVER_assert(c, t)
void h_mstep(void) {
    pair();
    u64 c = a.tail.peaks.container.cursor;
    lemma_sym(in_x, in_et);
    lemma_sym(in_x, in_at);
    lemma_anti(in_x, in_et);
    lemma_anti(in_x, in_at);
    int ra = spot_step(&a, in_x);
    g_side = 1;
    int rb = spot_step(&b, -in_x);
    lemma_neg(rq_r);
    lemma_addsym(in_et, rq_r);
    lemma_mirror(in_et, rq_r);
    A(ra == rb, "mirror: same verdict");
    A(a.n == b.n && a.Nt == b.Nt, "mirror: same counters");
    A(ra != EXCESS || NUMEQ(a.tail.peaks.container.data[c],
            b.tail.peaks.container.data[c]), "mirror: same stored excess");
    A(g_state[0] == g_state[1], "mirror: same tail state");
    A(NUMEQ(a.tail.gamma, b.tail.gamma) && NUMEQ(a.tail.sigma, b.tail.sigma),
      "mirror: same tail parameters");
    A(NUMEQ(a.anomaly_threshold, -b.anomaly_threshold),
      "mirror: opposite anomaly thresholds");
    A(NUMEQ(a.excess_threshold, -b.excess_threshold) &&
      a.low == 0 && b.low == 1, "mirror: the pair stays mirrored");
    PROBE(ra == EXCESS, "excess");
    PROBE(ra == ANOMALY, "anomaly");
    PROBE(ra == NORMAL, "normal");
}
void h_mquant(void) {
    pair();
    double in_q = nondet_double();
    double ra = spot_quantile(&a, in_q);
    g_side = 1;
    double rb = spot_quantile(&b, in_q);
    lemma_neg(rq_r);
    lemma_addsym(in_et, rq_r);
    lemma_mirror(in_et, rq_r);
    A(NUMEQ(ra, -rb), "mirror: opposite quantiles");
    PROBE(ra > 1.0, "a quantile");
}
void h_mprob(void) {
    pair();
    lemma_sym(in_x, in_et);
    lemma_anti(in_x, in_et);
    double ra = spot_probability(&a, in_x);
    g_side = 1;
    double rb = spot_probability(&b, -in_x);
    A(NUMEQ(ra, rb), "mirror: equal probabilities");
    PROBE(ra > 0.5, "a probability");
}
