/* C13: training accounts for every value of the batch */
#include "oracle.h"
static void gen_case(void) {
    struct Spot sp;
    memset(&sp, 0, sizeof sp);
    set_allocators(n_malloc, n_free);
    int low = below(2);
    double level = below(6) ? 0.5 + 0.5 * u01() : u01();
    if (below(20) == 0) level = 0;
    if (!(level < 0.9999)) level = 0.98;
    double q = (1 - level) * (0.0001 + 0.9 * u01());
    unsigned long cap = 1 + below(below(2) ? 5 : 60), size = below(below(4) ? 40 : 400);
    if (below(60) == 0) cap = 50 + below(3000);
    if (below(200) == 0) size = below(20000);
    if (below(60) == 0) size = 900 + below(300);
    if (spot_init(&sp, q, low, below(2), level, cap) != 0) return;
    double *data = malloc((size + 1) * sizeof(double)), *cp = malloc((size + 1) * sizeof(double)), *ex = malloc((size + 1) * sizeof(double));
    int kind = below(7), nans = below(12) == 0;
    note("low=%d level=%.17g q=%.17g max_excess=%lu batch:", low, level, q, cap);
    for (unsigned long i = 0; i < size; i++) {
        double x;
        switch (kind) {
        case 0: x = moderate(); break;
        case 1: x = (double)i; break;
        case 2: x = -(double)i; break;
        case 3: x = (double)below(3); break;
        case 4: x = 4.0; break;
        case 5: x = -log(1 - u01()); break;
        default: x = below(10) ? u01() : 50 * moderate();
        }
        if (nans && below(6) == 0) x = NAN;
        data[i] = cp[i] = x;
        note(" %.17g", x);
    }
    note("\n");
    int rc = spot_fit(&sp, data, size);
    note("returned %d, n=%lu Nt=%lu excess threshold %.17g anomaly threshold %.17g gamma %.17g sigma %.17g\n", rc, sp.n, sp.Nt, sp.excess_threshold, sp.anomaly_threshold, sp.tail.gamma, sp.tail.sigma);
    double et = p2_quantile(low ? 1. - level : level, data, size);
    for (unsigned long i = 0; i < size; i++) CHECK(same(data[i], cp[i]), "training modified the batch");
    CHECK(sp.q == q && sp.level == level && sp.low == low, "training changed the configuration");
    CHECK(sp.n == size, "n is %lu for %lu values", sp.n, size);
    if (et != et) {
        CHECK(rc == -ERR_EXCESS_THRESHOLD_IS_NAN, "no threshold, returned %d", rc);
        CHECK(sp.Nt == 0 && peaks_size(&sp.tail.peaks) == 0, "no threshold, %lu excesses", sp.Nt);
    } else {
        CHECK(sp.excess_threshold == et, "excess threshold %.17g, the quantile of the batch is %.17g", sp.excess_threshold, et);
        unsigned long m = 0;
        for (unsigned long i = 0; i < size; i++)
            if (low ? cp[i] < et : cp[i] > et) ex[m++] = low ? et - cp[i] : cp[i] - et;
        CHECK(sp.Nt == m, "%lu excesses counted, %lu values beyond the threshold", sp.Nt, m);
        unsigned long k = m < cap ? m : cap, st = peaks_size(&sp.tail.peaks);
        CHECK(st == k, "%lu excesses stored instead of %lu", st, k);
        struct Ubend *u = &sp.tail.peaks.container;
        for (unsigned long i = 0; i < k && st == k; i++) {
            double x = u->filled ? u->data[(u->cursor + i) % cap] : u->data[i];
            CHECK(x == ex[m - k + i], "stored excess %lu is %.17g instead of %.17g", i, x, ex[m - k + i]);
        }
        struct Tail t;
        tail_init(&t, cap);
        for (unsigned long i = 0; i < m; i++) tail_push(&t, ex[i]);
        tail_fit(&t);
        CHECK(numeq(t.gamma, sp.tail.gamma) && numeq(t.sigma, sp.tail.sigma), "fitted tail differs from the fit of the excesses: gamma %.17g sigma %.17g", t.gamma, t.sigma);
        double z = tail_quantile(&t, (double)m / (double)size, q);
        z = low ? et - z : et + z;
        CHECK(numeq(z, sp.anomaly_threshold) || close_rel(z, sp.anomaly_threshold, 1e-10, 1e-12 * fabs(et)), "anomaly threshold %.17g instead of %.17g", sp.anomaly_threshold, z);
        int wc = sp.anomaly_threshold != sp.anomaly_threshold ? -ERR_ANOMALY_THRESHOLD_IS_NAN : 0;
        CHECK(rc == wc, "returned %d instead of %d", rc, wc);
        tail_free(&t);
    }
    free(data); free(cp); free(ex);
    spot_free(&sp);
}
static int given_case(void) { return 0; }
