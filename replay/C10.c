/* run with the address and undefined-behaviour sanitizers */
#include "oracle.h"
#include "p2.h"
#include "brent.h"
#include "xmath.h"
#include "estimator.h"
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void) {
    printf("case %llu\n%sFAILED: sanitizer report (see below)\n", (unsigned long long)cur_case, fail_buf);
    fflush(stdout);
}
static double *block(const double *src, unsigned long n) {
    double *p = malloc(n * 8 + (n == 0));
    if (n) memcpy(p, src, n * 8);
    return p;
}
static double value(int style) {
    switch (style) {
    case 0: return any_double();
    case 1: return moderate();
    case 2: return (double)below(4);
    case 3: return finite_double();
    case 4: return -log(1 - u01());
    default: return below(20) ? moderate() : any_double();
    }
}
static double wild(double x, void *e) { (*(long *)e)++; return below(3) ? any_double() : x; }
static double line(double x, void *e) { (*(long *)e)++; return x - 1.25; }
static void text(void) {
    unsigned long n = below(3) ? below(130) : below(3);
    char *b = malloc(n + (n == 0));
    if (n) memset(b, 0x5a, n);
    int code = below(4) ? (int)(998 + below(10)) : (int)rnd();
    note("texts, buffer of %lu, code %d\n", n, code);
    switch (below(3)) {
    case 0: libspot_version(b, n); break;
    case 1: libspot_license(b, n); break;
    default: libspot_error(code, b, n);
    }
    libspot_version(0, n); libspot_license(0, n); libspot_error(code, 0, n);
    free(b);
}
static void math_(void) {
    double x = any_double(), y = any_double();
    switch (below(5)) {
    case 0: x = (u01() - 0.5) * 2000; break;
    case 1: x = 1024 * 0.6931471805599453 * (1 + ((double)below(9) - 4) * 0x1p-52); break;
    case 2: x = below(2) ? 5e9 : 3e10 * u01(); break;
    }
    note("exp, log, pow, min of %.17g %.17g\n", x, y);
    xexp(x); xexp(-x); xlog(x); xpow(x, y); xpow(y, x); xmin(x, y);
}
static void root(void) {
    long *cnt = calloc(1, sizeof *cnt);
    int *found = malloc(sizeof *found);
    *found = 7;
    double a = any_double(), b = any_double(), t = below(4) ? 2e-8 : any_double();
    note("brent %.17g %.17g tol %.17g\n", a, b, t);
    brent(found, a, b, below(2) ? wild : line, cnt, t);
    free(found); free(cnt);
}
static void quant(void) {
    double d[400], p = below(4) ? u01() : any_double();
    int st = below(6);
    unsigned long n = below(4) ? below(12) : below(400);
    for (unsigned long i = 0; i < n; i++) d[i] = value(st);
    if (n && below(5) == 0) for (unsigned long i = 1; i < n; i++) d[i] = below(3) ? d[i - 1] : d[below(i)];
    double *x = block(d, n);
    note("p2_quantile(%.17g) of %lu:", p, n);
    for (unsigned long i = 0; i < n && i < 40; i++) note(" %.17g", d[i]);
    note("\n");
    p2_quantile(p, x, n);
    CHECK(!n || !memcmp(x, d, n * 8), "input modified");
    free(x);
}
static void det(void) {
    struct Spot *s = malloc(sizeof *s);
    memset(s, 0, sizeof *s);
    set_allocators(n_malloc, n_free);
    unsigned long cap = below(30) ? 1 + below(below(3) ? 8 : 60) : below(2) ? 0 : below(2) ? (1ul << 61) + below(5) : rnd();
    double level = below(3) ? 0.98 : u01(), q = below(3) ? 1e-3 : any_double();
    int low = below(2), disc = below(2);
    if (below(8) == 0) level = any_double();
    note("spot_init(q=%.17g, low=%d, discard=%d, level=%.17g, max=%lu)\n", q, low, disc, level, cap);
    int r = spot_init(s, q, low, disc, level, cap);
    if (r != 0) { free(s); return; }
    if (cap > 100000) { CHECK(0, "accepted capacity %lu", cap); return; }
    double d[400];
    int st = below(6);
    for (int rep = 0, reps = 1 + below(2); rep < reps; rep++) {
        unsigned long n = below(3) ? below(400) : below(12);
        for (unsigned long i = 0; i < n; i++) d[i] = value(st);
        double *x = block(d, n);
        note("spot_fit of %lu values (style %d)", n, st);
        for (unsigned long i = 0; i < n && i < 24; i++) note(" %.17g", d[i]);
        note("\n");
        spot_fit(s, x, n);
        CHECK(!n || !memcmp(x, d, n * 8), "input modified");
        free(x);
        int k = below(120);
        for (int i = 0; i < k; i++) {
            double v = value(st);
            if (below(5) == 0) v = (low ? -1 : 1) * (fabs(v) + 4);
            note("step %.17g\n", v);
            spot_step(s, v);
            if (below(4) == 0) { spot_quantile(s, any_double()); spot_probability(s, any_double()); }
            if (below(8) == 0) { struct Peaks *p = &s->tail.peaks; double g, si; peaks_mean(p); peaks_var(p); peaks_size(p);
                log_likelihood(p, any_double(), any_double()); mom_estimator(p, &g, &si); grimshaw_estimator(p, &g, &si);
                tail_quantile(&s->tail, any_double(), any_double()); tail_probability(&s->tail, any_double(), any_double()); }
        }
    }
    spot_free(s);
    free(s);
}
static void gen_case(void) {
    __sanitizer_set_death_callback(on_death);
    switch (below(8)) {
    case 0: text(); break;
    case 1: math_(); break;
    case 2: root(); break;
    case 3: case 4: quant(); break;
    default: det();
    }
}
static int given_case(void) {
    __sanitizer_set_death_callback(on_death);
    if (kv("in_x") || kv("in_a")) {
        double x = kv_d("in_x", kv_d("in_a", 0));
        note("exp, log, pow, min of %.17g\n", x);
        xexp(x); xlog(x); xpow(x, 2); xmin(x, kv_d("in_b", 0));
        return 1;
    }
    return 0;
}
