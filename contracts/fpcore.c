/* C09: the binary decomposition and scaling behind exp and log are exact for
 * every double, and a power is the exponential of the exponent times the
 * logarithm.  /repo/src/xmath.c is included as it is, to reach its static
 * functions through the pointers exp and log call them by. */
#include "spec.h"
#ifdef WITH_STATICS
#include "xmath.c"
#else
double xexp(double x);
double xlog(double x);
double xpow(double a, double x);
#endif

double nondet_double(void);
int nondet_int(void);
u64 nondet_u64(void);
typedef union { double d; u64 u; } bits;

#ifdef WITH_STATICS
/* |x| = M * 2^E with M an integer below 2^53 */
static u64 mant(u64 b) {
    u64 ef = (b >> 52) & 0x7ff, f = b & 0xfffffffffffffull;
    return ef ? f | (1ull << 52) : f;
}
static int expo(u64 b) {
    int ef = (b >> 52) & 0x7ff;
    return (ef ? ef : 1) - 1075;
}
void h_frexp(void) {
    bits x, r;
    u64 in_x = nondet_u64();
    x.u = in_x;
    __CPROVER_assume(((x.u >> 52) & 0x7ff) != 0x7ff && (x.u << 1) != 0);
    int e = nondet_int();
    r.d = libspot_frexp(x.d, &e);
    __CPROVER_assert(((r.u >> 52) & 0x7ff) == 1022, "frexp: the significand lies in [1/2, 1)");
    __CPROVER_assert(r.u >> 63 == x.u >> 63, "frexp: the sign is kept");
    __CPROVER_assert(e >= -1073 && e <= 1024, "frexp: the exponent is in range");
    /* mant(r) * 2^(e-53) == mant(x) * 2^expo(x) */
    int sh = expo(x.u) - (e - 53);
    __CPROVER_assert(sh >= 0 && sh <= 52, "frexp: the exponent fits the value");
    __CPROVER_assert((mant(x.u) << (sh & 63)) == mant(r.u), "frexp: significand times power of two is the argument");
    PROBE(((in_x >> 52) & 0x7ff) == 0, "a subnormal argument");
    PROBE(e == 1024, "the largest exponent");
}
void h_frexp0(void) {
    bits x, r;
    x.u = nondet_u64();
    __CPROVER_assume((x.u << 1) == 0);
    int e = nondet_int();
    r.d = libspot_frexp(x.d, &e);
    __CPROVER_assert(r.d == 0 && e == 0, "frexp: zero");
    PROBE(x.u == 0, "plus zero");
}
/* the double nearest to x * 2^n, ties to even, by integer arithmetic */
static u64 scaled(u64 b, int n) {
    u64 sign = b & (1ull << 63), ef = (b >> 52) & 0x7ff, m = mant(b);
    if (ef == 0x7ff || m == 0)
        return b;
    int e = expo(b);
    if (ef == 0) { /* normalise (shifts by constants) */
        if (!(m >> 21)) { m <<= 32; e -= 32; }
        if (!(m >> 37)) { m <<= 16; e -= 16; }
        if (!(m >> 45)) { m <<= 8; e -= 8; }
        if (!(m >> 49)) { m <<= 4; e -= 4; }
        if (!(m >> 51)) { m <<= 2; e -= 2; }
        if (!(m >> 52)) { m <<= 1; e -= 1; }
    }
    long t = (long)e + n; /* value m * 2^t, 2^52 <= m < 2^53 */
    if (t + 52 > 1023)
        return sign | (0x7ffull << 52);
    if (t >= -1074)
        return sign | ((u64)(t + 1075) << 52) | (m & 0xfffffffffffffull);
    long d = -1074 - t;
    if (d > 53)
        return sign;
    u64 q = m >> d, rest = m & ((1ull << d) - 1), half = 1ull << (d - 1);
    if (rest > half || (rest == half && (q & 1)))
        q++;
    return sign | q;
}
void h_ldexp(void) {
    bits x, r;
    u64 in_x = nondet_u64();
    int in_n = nondet_int();
    x.u = in_x;
    __CPROVER_assume(x.d == x.d);
#ifdef PART
    __CPROVER_assume(PART);
#endif
    r.d = libspot_ldexp(x.d, in_n);
    __CPROVER_assert(r.u == scaled(in_x, in_n), "ldexp: the double nearest to x * 2^n");
    PROBE(r.d != 0 && (r.u >> 52 & 0x7ff) != 0x7ff, "a finite result");
}
void h_ldexpnan(void) {
    double x = nondet_double();
    __CPROVER_assume(x != x);
    double r = libspot_ldexp(x, nondet_int());
    __CPROVER_assert(r != r, "ldexp: NaN stays NaN");
    PROBE(1, "reached");
}
#else
double __CPROVER_uninterpreted_EXP(double x);
double __CPROVER_uninterpreted_LOG(double x);
double xexp(double x)
__CPROVER_assigns()
__CPROVER_ensures(SAME(__CPROVER_return_value, __CPROVER_uninterpreted_EXP(x)))
;
double xlog(double x)
__CPROVER_assigns()
__CPROVER_ensures(SAME(__CPROVER_return_value, __CPROVER_uninterpreted_LOG(x)))
;
double xpow(double a, double x)
__CPROVER_assigns()
__CPROVER_ensures(SAME(__CPROVER_return_value,
    __CPROVER_uninterpreted_EXP(x * __CPROVER_uninterpreted_LOG(a))))
;
void h_pow(void) {
    double in_a = nondet_double(), in_y = nondet_double();
    double r = xpow(in_a, in_y);
    PROBE(in_a < 0 && r == r, "negative base");
    PROBE(in_a > 1, "base above one");
}
/* functions installed by the caller are the ones used; null leaves the current one */
static int l_calls, f_calls;
static double u_ldexp(double x, int n) { l_calls++; return x; }
static double u_frexp(double x, int *e) { f_calls++; *e = 3; return 0.625; }
_Bool nondet_bool(void);
void h_utils(void) {
    _Bool l = nondet_bool(), f = nondet_bool();
    set_float_utils(l ? u_ldexp : 0, f ? u_frexp : 0);
    if (nondet_bool())
        set_float_utils(0, 0);
    xexp(50.0);
    __CPROVER_assert(l ? l_calls > 0 : l_calls == 0, "utils: exp scales with the installed function");
    xlog(5.0);
    __CPROVER_assert(f ? f_calls > 0 : f_calls == 0, "utils: log decomposes with the installed function");
    PROBE(l && !f, "only one is installed");
    PROBE(!l && f, "only the other is installed");
}
#endif
