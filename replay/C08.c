#include "step_common.h"
static void go(int disc, double q, double et, double at, double x, unsigned long cap, unsigned long pushes, unsigned long n, unsigned long Nt, uint64_t seed) {
    struct Det a, b;
    if (isinf(et)) return;
    rng_s = seed; det_make(&a, 0, disc, q, et, at, n, Nt, cap, pushes);
    rng_s = seed; det_make(&b, 1, disc, q, -et, -at, n, Nt, cap, pushes);
    if (!a.s.tail.peaks.container.data || !b.s.tail.peaks.container.data) return;
    note("discard=%d q=%a et=%a at=%a x=%a cap=%lu pushes=%lu n=%lu Nt=%lu fill seed %llu\n", disc, q, et, at, x, cap, pushes, n, Nt, (unsigned long long)seed);
    double z = x;
    CHECK(numeq(spot_quantile(&a.s, q), -spot_quantile(&b.s, q)), "quantiles %a %a", spot_quantile(&a.s, q), spot_quantile(&b.s, q));
    CHECK(numeq(spot_probability(&a.s, z), spot_probability(&b.s, -z)), "probabilities %a %a", spot_probability(&a.s, z), spot_probability(&b.s, -z));
    for (int k = 0; k < 6; k++) {
        unsigned long c = a.s.tail.peaks.container.cursor;
        int ra = spot_step(&a.s, x), rb = spot_step(&b.s, -x);
        CHECK(ra == rb, "step %d (x=%a): verdicts %d %d", k, x, ra, rb);
        CHECK(a.s.n == b.s.n && a.s.Nt == b.s.Nt, "counters");
        if (ra == EXCESS && rb == EXCESS)
            CHECK(numeq(a.s.tail.peaks.container.data[c], b.s.tail.peaks.container.data[c]), "excess %a %a", a.s.tail.peaks.container.data[c], b.s.tail.peaks.container.data[c]);
        CHECK(numeq(a.s.anomaly_threshold, -b.s.anomaly_threshold), "thresholds %a %a", a.s.anomaly_threshold, b.s.anomaly_threshold);
        if (failed_case) break;
        x = below(3) ? et + moderate() : any_double();
    }
    det_free(&a); det_free(&b);
}
static void gen_case(void) {
    double et = below(8) ? moderate() : finite_double(), at = below(4) ? et + moderate() : any_double();
    unsigned long cap = 1 + below(8), p = below(3 * cap + 1), n = 1 + below(1000), nt = below(100);
    int disc = below(2);
    double x = below(4) ? et + moderate() : below(2) ? et : any_double();
    go(disc, u01() * 0.4 + 1e-9, et, at, x, cap, p, n, nt, rnd());
}
static int given_case(void) {
    go((int)kv_u("in_disc", 1), 0.01, kv_d("in_et", 0), kv_d("in_at", 1), kv_d("in_x", 0), 4, 6, 100, 5, 12345);
    return 1;
}
