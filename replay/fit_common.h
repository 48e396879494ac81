#include "oracle.h"
#include "tail.h"
#include "estimator.h"
/* a window of positive excesses after a history of insertions */
static double pos_value(int kind, unsigned i) {
    double u = 1 - u01();
    switch (kind) {
    case 0: return -log(u) + 1e-9;
    case 1: return u;
    case 2: return (pow(u, -0.3) - 1) + 1e-6;
    case 3: return (1 - pow(u, 0.4)) + 1e-6;
    case 4: return 1.0 + (double)below(3);
    case 5: return 2.5;
    case 6: return exp(8 * u01() - 4);
    case 7: return 10 + u01();
    case 8: return 1 + (i % 2) * 5;
    default: return -100 * log(u) + 1e-6;
    }
}
static unsigned long fit_cap, fit_n;
static double *fit_v;   /* stored values, oldest first */
static void make_window(struct Tail *t) {
    set_allocators(n_malloc, n_free);
    fit_cap = 1 + below(below(3) ? 8 : 60);
    if (below(200) == 0) fit_cap = 100 + below(4000);
    unsigned n = 1 + below(2 * fit_cap);
    int kind = below(10);
    tail_init(t, fit_cap);
    double *h = malloc(n * sizeof(double));
    note("capacity %lu, values:", fit_cap);
    for (unsigned i = 0; i < n; i++) {
        h[i] = pos_value(below(30) ? kind : (int)below(10), i);
        note(" %.17g", h[i]);
        tail_push(t, h[i]);
    }
    note("\n");
    fit_n = n < fit_cap ? n : fit_cap;
    fit_v = malloc(fit_n * sizeof(double));
    memcpy(fit_v, h + n - fit_n, fit_n * sizeof(double));
    free(h);
}
/* reference log-likelihood, with a bound on the error of a double evaluation;
   returns 0 if the comparison is not meaningful, 2 if undefined (out of support) */
static int ref_ll(long double g, long double s, long double *ll, long double *err) {
    long double N = fit_n, sum = 0, L = 0, E = 0, x = g / s;
    if (!(s > 0) || !isfinite((double)g) || !isfinite((double)s)) return 0;
    for (unsigned long i = 0; i < fit_n; i++) {
        sum += fit_v[i];
        if (g != 0) {
            long double z = 1 + x * fit_v[i];
            if (z < -1e-9L * (1 + fabsl(x * fit_v[i]))) return 2;
            if (z < 1e-9L) return 0;
            L += logl(z);
            E += 4e-16L * (1 + fabsl(x * fit_v[i])) / z + 2e-14L * fabsl(logl(z)) + 2e-15L;
        }
    }
    if (g == 0) {
        *ll = -N * logl(s) - sum / s;
        *err = N * (2e-14L * fabsl(logl(s)) + 1e-14L) + 1e-12L * sum / s;
    } else {
        long double c = 1 + 1 / g;
        *ll = -N * logl(s) - c * L;
        *err = N * (2e-14L * fabsl(logl(s)) + 1e-14L) + (1 + fabsl(1 / g)) * E * 2 + 1e-14L * N * (fabsl(c * L) + N * fabsl(logl(s)));
    }
    *err *= 4;
    return isfinite((double)*ll) && *err < 0.1L * (1 + fabsl(*ll));
}
static double own_w(double x, void *arg) {
    double u = 0, v = 0;
    for (unsigned long i = 0; i < fit_n; i++) {
        double s = 1. + x * fit_v[i];
        u += 1 / s;
        v += xlog(s);
    }
    return (u / fit_n) * (1.0 + v / fit_n) - 1.0;
}
/* (g, s) is the pair of a root: g = mean log(1 + x y), x = g/s, and the equation changes sign around x */
static int is_root_pair(double g, double s, int with_sign) {
    if (!(s != 0) || !isfinite(g) || !isfinite(s) || g == 0) return 0;
    long double x = (long double)g / s, L = 0, E = 0;
    for (unsigned long i = 0; i < fit_n; i++) {
        long double z = 1 + x * fit_v[i];
        if (!(z > 0)) return 0;
        L += logl(z);
        E += 1e-15L * (1 + fabsl(x * fit_v[i])) / z + 4e-14L * fabsl(logl(z)) + 4e-15L;
    }
    L /= fit_n; E /= fit_n;
    if (fabsl(L - g) > 8 * E + 1e-14L * fit_n * fabsl(L) + 1e-14L) return 0;
    if (with_sign) {
        double d = 1e-7 * fabs((double)x) + 1e-7, w0 = own_w(x, 0), w1 = own_w(x - d, 0), w2 = own_w(x + d, 0);
        if (fabs(w0) > 1e-5 && ((w1 > 0 && w2 > 0 && w0 > 0) || (w1 < 0 && w2 < 0 && w0 < 0))) return 0;
    }
    return 1;
}
static void ref_stats(long double *E, long double *V, long double *dV) {
    long double e = 0, e2 = 0;
    for (unsigned long i = 0; i < fit_n; i++) { e += fit_v[i]; e2 += (long double)fit_v[i] * fit_v[i]; }
    *E = e / fit_n; *V = e2 / fit_n - *E * *E;
    *dV = 1e-13L * (e2 / fit_n);
}
