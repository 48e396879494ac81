/* Lemmas about IEEE double arithmetic, stated as contracts of functions with
 * an empty body: each is proved once (harness h_lemma_*), then used by
 * replacing the call with the contract. */
#ifndef VP_LEMMAS_H
#define VP_LEMMAS_H
#include "spec.h"
/* rounding is symmetric */
void lemma_sym(double x, double y)
__CPROVER_assigns()
__CPROVER_ensures(NUMEQ((-x) - (-y), -(x - y)))
{}
void lemma_anti(double x, double y)
__CPROVER_assigns()
__CPROVER_ensures(NUMEQ(y - x, -(x - y)))
{}
void lemma_addsym(double x, double y)
__CPROVER_assigns()
__CPROVER_ensures(NUMEQ((-x) + (-y), -(x + y)))
{}
void lemma_neg(double x)
__CPROVER_assigns()
__CPROVER_ensures(ISNAN(x) ? (ISNAN(-1.0 * x) && ISNAN(1.0 * x))
                           : (SAME(-1.0 * x, -x) && SAME(1.0 * x, x)))
{}
/* the same through the +/-1 factor */
void lemma_mirror(double x, double y)
__CPROVER_assigns()
__CPROVER_ensures(NUMEQ((-x) + -1.0 * y, -(x + 1.0 * y)))
{
    lemma_neg(y);
    lemma_addsym(x, y);
}
void h_lemma_sym(void) { double x, y; lemma_sym(x, y); }
void h_lemma_anti(void) { double x, y; lemma_anti(x, y); }
void h_lemma_addsym(void) { double x, y; lemma_addsym(x, y); }
void h_lemma_mirror(void) { double x, y; lemma_mirror(x, y); }
void h_lemma_neg(void) { double x; lemma_neg(x); }
#endif
