/* Native replay of counterexamples and directed search for a failing input
 * on the real code (compiled from /repo/src).  Each oracle states the property
 * independently of the code.
 *   oracle search SEED SECONDS   look for a failing case, print it, exit 1
 *   oracle case N                run the case number N
 *   oracle given k=v ...         run the case given by a counterexample   */
#ifndef ORACLE_H
#define ORACLE_H
#include "spot.h"
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>

static uint64_t rng_s;
static uint64_t rnd(void) {
    uint64_t z = (rng_s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static double u01(void) { return (double)(rnd() >> 11) * 0x1p-53; }
static double from_bits(uint64_t b) {
    double d;
    memcpy(&d, &b, 8);
    return d;
}
static uint64_t to_bits(double d) {
    uint64_t b;
    memcpy(&b, &d, 8);
    return b;
}
static int same(double a, double b) {
    return to_bits(a) == to_bits(b) || (a != a && b != b);
}
static int numeq(double a, double b) { return a == b || (a != a && b != b); }
static int close_rel(double a, double b, double rel, double abs_) {
    if (numeq(a, b))
        return 1;
    if (!isfinite(a) || !isfinite(b))
        return 0;
    return fabs(a - b) <= rel * fmax(fabs(a), fabs(b)) + abs_;
}
static double special(void) {
    static const double t[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, -1e-300,
        5e-324, -5e-324, 1e300, -1e300, 0.98, 0.02, 1e-8, 1.7976931348623157e308,
        2.2250738585072014e-308, 1.0000000000000002, 0.9999999999999999, 3.0, 10.0};
    return t[below(sizeof t / sizeof *t)];
}
/* a double: special, bit pattern, or moderate */
static double any_double(void) {
    switch (below(8)) {
    case 0: return special();
    case 1: return from_bits(rnd());
    case 2: return NAN;
    case 3: return below(2) ? INFINITY : -INFINITY;
    case 4: return (double)(int64_t)below(9) - 4;
    default: return (u01() - 0.5) * 20.0;
    }
}
static double finite_double(void) {
    for (;;) {
        double d = any_double();
        if (isfinite(d))
            return d;
    }
}
static double moderate(void) {
    switch (below(4)) {
    case 0: return (double)(int64_t)below(9) - 4;
    case 1: return (u01() - 0.5) * 1e-3;
    default: return (u01() - 0.5) * 20.0;
    }
}

static char fail_buf[1 << 16];
static size_t fail_len;
static int failed_case;
static void note(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (fail_len < (failed_case ? sizeof fail_buf - 512 : sizeof fail_buf - 8192))
        fail_len += vsnprintf(fail_buf + fail_len, 500, fmt, ap);
    va_end(ap);
}
#define CHECK(c, ...)                                                         \
    do {                                                                      \
        if (!(c)) {                                                           \
            failed_case = 1;                                                  \
            note("FAILED: %s -- ", #c);                                       \
            note(__VA_ARGS__);                                                \
            note("\n");                                                       \
        }                                                                     \
    } while (0)

static int g_argc;
static char **g_argv;
static const char *kv(const char *k) {
    size_t n = strlen(k);
    for (int i = 2; i < g_argc; i++)
        if (!strncmp(g_argv[i], k, n) && g_argv[i][n] == '=')
            return g_argv[i] + n + 1;
    return 0;
}
static double kv_d(const char *k, double def) {
    const char *s = kv(k);
    if (!s)
        return def;
    if (s[0] == '0' && s[1] == 'x')
        return from_bits(strtoull(s, 0, 16));
    return strtod(s, 0);
}
static uint64_t kv_u(const char *k, uint64_t def) {
    const char *s = kv(k);
    return s ? strtoull(s, 0, 0) : def;
}

/* provided by each oracle */
static void gen_case(void);   /* random case from rnd() */
static int given_case(void);  /* case from kv(); 0 if not applicable */

static uint64_t cur_case;
static void on_signal(int s) {
    printf("case %llu\n%sFAILED: signal %d (%s)\n", (unsigned long long)cur_case,
           fail_buf, s, s == SIGALRM ? "no termination" : "crash");
    fflush(stdout);
    _exit(1);
}
static void run_n(uint64_t n) {
    cur_case = n;
    rng_s = n * 0x2545f4914f6cdd1dull + 88172645463325252ull;
    fail_len = 0;
    fail_buf[0] = 0;
    failed_case = 0;
    alarm(20);
    gen_case();
    alarm(0);
}
int main(int argc, char **argv) {
    g_argc = argc;
    g_argv = argv;
    signal(SIGSEGV, on_signal);
    signal(SIGFPE, on_signal);
    signal(SIGABRT, on_signal);
    signal(SIGBUS, on_signal);
    signal(SIGILL, on_signal);
    signal(SIGALRM, on_signal);
    if (argc >= 4 && !strcmp(argv[1], "search")) {
        uint64_t seed = strtoull(argv[2], 0, 0);
        double secs = strtod(argv[3], 0);
        uint64_t max = argc > 4 ? strtoull(argv[4], 0, 0) : ~0ull;
        struct timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        for (uint64_t i = 0; i < max; i++) {
            run_n(seed * 1000003ull + i);
            if (failed_case) {
                printf("case %llu\n%s", (unsigned long long)cur_case, fail_buf);
                return 1;
            }
            clock_gettime(CLOCK_MONOTONIC, &b);
            if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) {
                printf("cases %llu\n", (unsigned long long)(i + 1));
                return 0;
            }
        }
        printf("cases %llu\n", (unsigned long long)max);
        return 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "case")) {
        run_n(strtoull(argv[2], 0, 0));
        printf("%s", fail_buf);
        return failed_case;
    }
    if (argc >= 2 && !strcmp(argv[1], "given")) {
        alarm(20);
        if (!given_case())
            return 2;
        printf("%s", fail_buf);
        return failed_case;
    }
    return 3;
}

/* ---- building detectors ---- */
static void *n_malloc(__SIZE_TYPE__ n) { return malloc(n); }
static void n_free(void *p) { free(p); }

/* reference window */
struct Ref {
    double *v;
    size_t n, cap;
};
#endif
