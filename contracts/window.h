/* Contract of the insertion into the window, used at every call site that is
 * not the function under proof.  U is the struct Ubend* expression. */
#ifndef VP_WINDOW_H
#define VP_WINDOW_H
#include "spec.h"
#define WINDOW_PUSH_CONTRACT(U, X)                                            \
    __CPROVER_requires(UB_INV(U))                                             \
    __CPROVER_requires(__CPROVER_w_ok((U)->data,                              \
                                      (U)->capacity * sizeof(double)))        \
    __CPROVER_ensures((U)->capacity == __CPROVER_old((U)->capacity) &&        \
                      (U)->data == __CPROVER_old((U)->data))                  \
    __CPROVER_ensures((U)->cursor ==                                          \
                      (__CPROVER_old((U)->cursor) + 1 == (U)->capacity        \
                           ? 0UL                                              \
                           : __CPROVER_old((U)->cursor) + 1))                 \
    __CPROVER_ensures((U)->filled ==                                          \
                      (__CPROVER_old((U)->filled) ||                          \
                       __CPROVER_old((U)->cursor) + 1 == (U)->capacity))      \
    __CPROVER_ensures(SAME((U)->data[__CPROVER_old((U)->cursor)], X))
#endif
