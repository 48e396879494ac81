/* C09: exp, log and pow against the C library's long double functions */
#include "oracle.h"
#include "xmath.h"
static void chk_log(double x) {
    double r = xlog(x);
    if (x != x || x < 0) { CHECK(r != r, "log(%.17g) = %.17g", x, r); return; }
    if (x == 0) { CHECK(r == -INFINITY, "log(%.17g) = %.17g", x, r); return; }
    if (x == INFINITY) { CHECK(r == INFINITY, "log(%.17g) = %.17g", x, r); return; }
    long double t = logl((long double)x);
    CHECK(fabsl(r - t) <= 1e-14L * fabsl(t) + 1e-15L, "log(%.17g) = %.17g, true value %.19Lg, error %.3Lg", x, r, t, fabsl(r - t));
}
static void chk_exp(double x) {
    double r = xexp(x);
    if (x != x) { CHECK(r != r, "exp(%.17g) = %.17g", x, r); return; }
    if (x == INFINITY) { CHECK(r == INFINITY, "exp(%.17g) = %.17g", x, r); return; }
    long double t = expl((long double)x);
    if (t < 0x1p-1022L) { CHECK(r >= 0 && r <= 0x1p-1022 * (1 + 2e-13), "exp(%.17g) = %.17g should underflow", x, r); return; }
    long double big = 0x1.fffffffffffffp1023L;
    if (t > big) { CHECK(r == INFINITY, "exp(%.17g) = %.17g should overflow", x, r); return; }
    if (r == INFINITY && t > big * (1 - 2e-13L)) return;
    CHECK(fabsl(r - t) <= 2.001e-13L * t, "exp(%.17g) = %.17g, true value %.19Lg, relative error %.3Lg", x, r, t, fabsl(r / t - 1));
}
static void chk_pow(double a, double y) {
    double r = xpow(a, y), w = xexp(y * xlog(a));
    CHECK(same(r, w), "pow(%.17g, %.17g) = %.17g, exp(y log a) = %.17g", a, y, r, w);
}
static double ulps(double x, int n) {
    if (!isfinite(x)) return x;
    int64_t b = (int64_t)to_bits(x);
    return from_bits((uint64_t)(b + n));
}
static void one(void) {
    double x;
    switch (below(12)) {
    case 0: x = from_bits(rnd() & 0x000fffffffffffffull); break;              /* subnormal */
    case 1: x = from_bits(rnd() >> 1); break;                                /* any positive */
    case 2: x = ulps((double)((int)below(2200) - 1100) * 0.69314718055994530942, (int)below(9) - 4); break;
    case 3: x = ulps(1.0, (int)below(20001) - 10000); break;
    case 4: x = 0.4 + 1.7 * u01(); break;
    case 5: x = (u01() - 0.5) * 1500; break;
    case 6: x = (u01() - 0.5) * 4; break;
    case 7: { static const double t[] = {709.78271289338397, 708.39641853226408, 745.13321910194122, 710, 744.44, 0.69314718055994530942, 88.72, 36.7};
              x = ulps(t[below(8)], (int)below(41) - 20); if (below(2)) x = -x; break; }
    case 8: x = ldexp(0.5 + 0.5 * u01(), (int)below(2098) - 1073); break;
    case 9: x = (double)((int)below(2001) - 1000); break;
    case 10: x = ulps(ldexp(1, (int)below(2098) - 1074), (int)below(5) - 2); break;
    default: x = any_double();
    }
    note("x = %.17g (%a)\n", x, x);
    chk_log(x);
    chk_exp(x);
    if (below(2)) chk_exp(-x);
    if (below(2)) chk_log(-x);
    double y = below(3) ? moderate() : any_double();
    chk_pow(x, y);
    chk_pow(any_double(), y);
}
#include <sys/wait.h>
static int l_calls, f_calls;
static double u_ldexp(double x, int n) { l_calls++; return ldexp(x, n); }
static double u_frexp(double x, int *e) { f_calls++; return frexp(x, e); }
/* functions installed by the caller are the ones used (in a child: they cannot be taken back) */
static void chk_utils(void) {
    for (int k = 0; k < 4 && !failed_case; k++) {
        pid_t p = fork();
        if (p == 0) {
            set_float_utils(k & 1 ? u_ldexp : 0, k & 2 ? u_frexp : 0);
            set_float_utils(0, 0);
            double a = xexp(50.0), b = xlog(5.0);
            _exit((l_calls > 0) != (k & 1) || (f_calls > 0) != !!(k & 2) || fabs(a / exp(50) - 1) > 1e-12 || fabs(b - log(5)) > 1e-14);
        }
        int st = 0;
        if (p > 0 && waitpid(p, &st, 0) == p)
            CHECK(!WIFEXITED(st) || WEXITSTATUS(st) == 0, "set_float_utils(%s, %s) is not followed", k & 1 ? "ldexp" : "null", k & 2 ? "frexp" : "null");
    }
}
static void gen_case(void) {
    static int done;
    if (!done) { done = 1; chk_utils(); if (failed_case) return; }
    for (int i = 0; i < 200 && !failed_case; i++) { fail_len = 0; one(); }
}
static int given_case(void) {
    if (kv("in_a")) { chk_pow(kv_d("in_a", 0), kv_d("in_y", 0)); return 1; }
    if (!kv("in_x") || kv("in_n")) return 0;
    double x = kv_d("in_x", 0);
    const char *s = kv("in_x");
    if (s[1] != 'x') x = from_bits(strtoull(s, 0, 0)); /* bit pattern */
    chk_log(x);
    chk_exp(x);
    chk_pow(x, 0.5);
    return 1;
}
