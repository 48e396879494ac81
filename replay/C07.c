/* C07: quantile and probability against extended-precision formulas */
#include "oracle.h"
static double q0, d0;
static unsigned long n0, k0;
static void one(int again) {
    struct Spot sp, bk;
    memset(&sp, 0, sizeof sp);
    double buf[4] = {1, 2, 3, 4};
    sp.q = 1e-4; sp.level = 0.9;
    sp.discard_anomalies = below(2);
    sp.low = below(2);
    sp.__up_down = sp.low ? -1.0 : 1.0;
    sp.excess_threshold = below(4) ? moderate() : 0.0;
    sp.anomaly_threshold = sp.excess_threshold + sp.__up_down * u01();
    sp.n = 1 + below(100000);
    sp.Nt = 1 + below(sp.n);
    if (again) { sp.n = n0; sp.Nt = k0; }
    n0 = sp.n; k0 = sp.Nt;
    sp.tail.sigma = exp(8 * u01() - 4);
    switch (below(5)) {
    case 0: sp.tail.gamma = below(2) ? 0.0 : -0.0; break;
    case 1: sp.tail.gamma = (below(2) ? 1 : -1) * exp(-12 * u01()); break;
    case 2: sp.tail.gamma = below(2) ? -1.0 : 1.0; break;
    default: sp.tail.gamma = (u01() - 0.5) * 3;
    }
    sp.tail.peaks.container.data = buf;
    sp.tail.peaks.container.capacity = 4;
    sp.tail.peaks.container.filled = 1;
    sp.tail.peaks.min = 1; sp.tail.peaks.max = 4; sp.tail.peaks.e = 10; sp.tail.peaks.e2 = 30;
    bk = sp;
    long double s = (long double)sp.Nt / sp.n, g = sp.tail.gamma, sg = sp.tail.sigma, t = sp.excess_threshold, ud = sp.low ? -1 : 1;
    note("low=%d t=%.17g sigma=%.17g gamma=%.17g Nt=%lu n=%lu\n", sp.low, sp.excess_threshold, sp.tail.sigma, sp.tail.gamma, sp.Nt, sp.n);
    double q = below(3) ? (double)s * u01() : below(2) ? exp(-30 * u01()) : u01();
    if (below(8) == 0) q = (double)s;
    if (again) q = q0;
    q0 = q;
    if (q > 0) {
        long double L = logl((long double)q / s), want, tol;
        if (g == 0) { want = -sg * L; tol = sg * (1e-13L * fabsl(L) + 1e-13L); }
        else {
            long double P = expl(-g * L);
            want = sg / g * (P - 1);
            tol = fabsl(sg / g) * P * 1e-12L * (1 + fabsl(g * L)) + 1e-13L * fabsl(sg / g);
        }
        double z = spot_quantile(&sp, q), d = tail_quantile(&sp.tail, (double)s, q);
        if (fabsl(want) < 1e200L) {
            CHECK(fabsl(d - want) <= tol + 1e-14L * fabsl(want), "tail_quantile(s=%.17Lg, %.17g) = %.17g instead of %.17Lg", s, q, d, want);
            CHECK(fabsl(z - (t + ud * want)) <= tol + 1e-14L * (fabsl(want) + fabsl(t)), "spot_quantile(%.17g) = %.17g instead of %.17Lg", q, z, t + ud * want);
        }
    }
    double d = below(4) ? exp(6 * u01() - 3) * sp.tail.sigma : u01() * sp.tail.sigma;
    if (below(10) == 0) d = 0;
    if (below(6) == 0) d = -0.5 * u01() * sp.tail.sigma;
    if (g < 0 && below(3) == 0) d = -sp.tail.sigma / sp.tail.gamma * (0.5 + u01());
    if (again && below(2)) d = d0;
    d0 = d;
    double z = sp.excess_threshold + sp.__up_down * d;
    for (int k = 0; k < 2; k++) {
        long double dd = k ? ud * ((long double)z - t) : d, want, tol;
        double p = k ? spot_probability(&sp, z) : tail_probability(&sp.tail, (double)s, d);
        long double ae = k ? 2e-16L * (fabsl((long double)z) + fabsl(t)) : 0; /* absolute error of the distance */
        if (g == 0) {
            want = s * expl(-dd / sg);
            tol = want * (1e-12L + (2e-15L * fabsl(dd) + ae) / sg);
        } else {
            long double r = dd * g / sg, v = 1 + r, er = (4e-16L * (1 + fabsl(r)) + ae * fabsl(g) / sg);
            if (g < 0 && v < -4 * er) { CHECK(p == 0, "%s at distance %.17Lg beyond the end point is %.17g", k ? "spot_probability" : "tail_probability", dd, p); continue; }
            if (v <= 100 * er) continue;
            want = s * expl(-logl(v) / g);
            long double re = 1e-12L + (2 * er / v + 4e-14L * fabsl(logl(v)) + 4e-15L) / fabsl(g);
            if (re > 0.01L) continue;
            tol = 2 * re * want;
        }
        if (want > 1e250L) continue;
        CHECK(fabsl(p - want) <= tol + 1e-290L, "%s at distance %.17Lg = %.17g instead of %.17Lg", k ? "spot_probability" : "tail_probability", dd, p, want);
    }
    CHECK(!memcmp(&bk, &sp, sizeof sp), "a query modified the detector");
    CHECK(buf[0] == 1 && buf[1] == 2 && buf[2] == 3 && buf[3] == 4, "a query modified the excesses");
}
static void gen_case(void) {
    one(0);
    /* the same question to another detector: an answer does not depend on earlier ones */
    if (!failed_case && below(3) == 0) one(1);
}
static int given_case(void) { return 0; }
