/* C06: tail_fit keeps the most likely candidate, returns its likelihood, changes nothing else */
#include "fit_common.h"
static void cand(const char *what, double g, double s, struct Tail *t, double ret, int *defined) {
    double l = log_likelihood(&t->peaks, g, s);
    long double rl, re;
    if (l != l) return;
    *defined = 1;
    double tol = 1e-9 * (1 + fabs(l));
    if (ref_ll(g, s, &rl, &re) == 1) { tol += re; } else if (isfinite(l)) return;
    if (!isfinite(l)) { CHECK(ret >= l || ret != ret, "returned %.17g, less than %s %.17g", ret, what, l); return; }
    CHECK(ret >= l - tol, "the %s candidate gamma=%.17g sigma=%.17g has likelihood %.17g, the fit returned %.17g (gamma=%.17g sigma=%.17g)",
          what, g, s, l, ret, t->gamma, t->sigma);
}
static void gen_case(void) {
    struct Tail t, u;
    memset(&t, 0, sizeof t);
    make_window(&t);
    struct Peaks *p = &t.peaks;
    if (below(2)) { t.gamma = moderate(); t.sigma = 1 + u01(); }
    u = t;
    double *d = malloc(fit_cap * sizeof(double));
    memcpy(d, p->container.data, fit_cap * sizeof(double));
    double r = tail_fit(&t);
    note("fit: returned %.17g gamma %.17g sigma %.17g\n", r, t.gamma, t.sigma);
    CHECK(!memcmp(&t.peaks, &u.peaks, sizeof u.peaks), "the fit changed the window description");
    CHECK(!memcmp(d, p->container.data, fit_cap * sizeof(double)), "the fit changed stored excesses");
    free(d);
    /* the value returned is the likelihood of the stored pair */
    double l = log_likelihood(p, t.gamma, t.sigma);
    CHECK(numeq(l, r) || close_rel(l, r, 1e-9, 1e-9), "likelihood of the stored pair %.17g, returned %.17g", l, r);
    long double rl, re;
    if (ref_ll(t.gamma, t.sigma, &rl, &re) == 1)
        CHECK(fabsl(rl - r) <= re + 1e-9L, "reference likelihood %.17Lg, returned %.17g", rl, r);
    /* candidates */
    int def = 0;
    double g, s;
    mom_estimator(p, &g, &s);
    int is_mom = numeq(g, t.gamma) && numeq(s, t.sigma);
    cand("moment", g, s, &t, r, &def);
    long double E, V, dV;
    ref_stats(&E, &V, &dV);
    cand("exponential", 0.0, peaks_mean(p), &t, r, &def);
    double eps = fmin(2e-8, 0.5 / p->max), a[2], b[2];
    a[0] = -1.0 / p->max + eps; b[0] = -eps;
    a[1] = eps; b[1] = 2.0 * ((double)E - p->min) / (p->min * p->min);
    for (int k = 0; k < 2; k++) {
        int found = 0;
        double wa = own_w(a[k], 0), wb = own_w(b[k], 0);
        if (!(fabs(wa) > 1e-6 && fabs(wb) > 1e-6)) continue;
        double x = brent(&found, a[k], b[k], own_w, 0, 2e-8);
        if (!found || x == 0 || !(fabs(x) > 1e-6)) continue;
        double v = 0;
        for (unsigned long i = 0; i < fit_n; i++) v += xlog(1.0 + x * fit_v[i]);
        v /= fit_n;
        cand(k ? "right root" : "left root", v, v / x, &t, r, &def);
    }
    CHECK(!def || r == r, "some candidate has a defined likelihood, the fit returned NaN");
    int is_exp = t.gamma == 0 && close_rel(t.sigma, (double)E, 1e-11, 0);
    CHECK(!def || is_mom || is_exp || is_root_pair(t.gamma, t.sigma, 1), "the stored pair gamma=%.17g sigma=%.17g is none of the candidates (moments %.17g %.17g, mean %.17Lg)", t.gamma, t.sigma, g, s, E);
    tail_free(&t);
    free(fit_v);
}
static int given_case(void) { return 0; }
