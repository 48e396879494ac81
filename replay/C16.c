/* C16: likelihood and candidates against extended-precision references */
#include "fit_common.h"
static void one_ll(struct Peaks *p, double g, double s) {
    long double rl, re;
    double l = log_likelihood(p, g, s);
    int k = ref_ll(g, s, &rl, &re);
    if (k == 2) CHECK(l != l, "likelihood of gamma=%.17g sigma=%.17g out of the support is %.17g", g, s, l);
    if (k == 1) CHECK(fabsl(l - rl) <= re, "likelihood of gamma=%.17g sigma=%.17g is %.17g instead of %.17Lg (+-%.3Lg)", g, s, l, rl, re);
}
static void gen_case(void) {
    struct Tail t;
    memset(&t, 0, sizeof t);
    make_window(&t);
    struct Peaks *p = &t.peaks;
    long double E, V, dV;
    ref_stats(&E, &V, &dV);
    for (int i = 0; i < 6; i++) {
        double s = exp(6 * u01() - 3) * (below(2) ? 1 : (double)E);
        double g = below(4) == 0 ? 0.0 : (u01() - 0.5) * (below(2) ? 4 : 0.5);
        if (below(6) == 0) g = (below(2) ? 1 : -1) * exp(-20 * u01());
        if (below(6) == 0) g = -s / p->max * (0.5 + u01());
        if (below(30) == 0) g = -1.0;
        one_ll(p, g, s);
    }
    double g = 777, s = 777, r;
    r = mom_estimator(p, &g, &s);
    if (V > 1000 * dV * fit_cap) {
        long double R = E * E / V, dR = R * (dV * fit_cap / V + 1e-13L * fit_cap);
        CHECK(fabsl(g - 0.5L * (1 - R)) <= dR + 1e-14L, "moment gamma %.17g instead of %.17Lg", g, 0.5L * (1 - R));
        CHECK(fabsl(s - 0.5L * E * (1 + R)) <= E * (dR + 1e-12L), "moment sigma %.17g instead of %.17Lg", s, 0.5L * E * (1 + R));
    }
    double l = log_likelihood(p, g, s);
    CHECK(numeq(l, r) || close_rel(l, r, 1e-9, 1e-9), "moment candidate: returned %.17g, likelihood of its pair %.17g", r, l);
    g = s = 777;
    r = grimshaw_estimator(p, &g, &s);
    l = log_likelihood(p, g, s);
    CHECK(numeq(l, r) || close_rel(l, r, 1e-9, 1e-9), "grimshaw candidate: returned %.17g, likelihood of its pair %.17g", r, l);
    CHECK((g == 0 && close_rel(s, (double)E, 1e-11, 0)) || is_root_pair(g, s, 0),
          "grimshaw pair gamma=%.17g sigma=%.17g: neither the exponential (0, %.17Lg) nor gamma = mean log(1 + x y), sigma = gamma/x", g, s, E);
    tail_free(&t);
    free(fit_v);
}
static int given_case(void) { return 0; }
