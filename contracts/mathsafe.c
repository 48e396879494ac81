/* C10: no arithmetic helper converts a double outside the range of an integer,
 * shifts by an out of range amount, overflows a signed integer, divides
 * integers by zero or follows a bad pointer, for every double (NaN and
 * infinities included) and every int. */
#include "spec.h"
#include "xmath.c"
double nondet_double(void);
int nondet_int(void);
static double any_ldexp(double x, int n) { return nondet_double(); }
static double any_frexp(double x, int *e) { *e = nondet_int(); return nondet_double(); }
void h_exp(void) {
    double in_x = nondet_double();
    libspot_ldexp = any_ldexp; /* the caller may install any function */
    xexp(in_x);
    PROBE(in_x > 1 && in_x < 700, "in the middle of the range");
    PROBE(in_x < 0, "negative");
}
void h_log(void) {
    double in_x = nondet_double();
    libspot_frexp = any_frexp;
    xlog(in_x);
    PROBE(in_x > 2, "above two");
}
void h_frexp(void) {
    double in_x = nondet_double();
    int e = nondet_int();
    libspot_frexp(in_x, &e);
    PROBE(in_x > 0, "positive");
}
void h_ldexp(void) {
    double in_x = nondet_double();
    int in_n = nondet_int();
    libspot_ldexp(in_x, in_n);
    PROBE(in_n < -5000, "far down");
    PROBE(in_n > 5000, "far up");
}
void h_min(void) {
    double in_a = nondet_double(), in_b = nondet_double();
    xmin(in_a, in_b);
    PROBE(1, "returns");
}
