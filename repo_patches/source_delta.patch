From 6d59b0dc50b5dd1444861d60bbee8c0098fd235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 01/17] fix: accumulate the squares when the tail statistics
 are recomputed

peaks_update_stats overwrote e2 at each iteration, so the variance (and the
method-of-moments fit) was wrong as soon as an extreme excess left the window.
---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From 03cc90b024798755d93caeb4540a1fdca4dac5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 02/17] fix: return a message for ERR_DATA_IS_NAN

libspot_error left the buffer untouched for the last error code.
---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..a30ce38 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -200,7 +200,7 @@ static const char *errors[] = {
 }; // clang-format on
 
 void libspot_error(enum LibspotError err, char *buffer, unsigned long size) {
-    if ((err >= ERR_MEMORY_ALLOCATION_FAILED) && (err < ERR_DATA_IS_NAN)) {
+    if ((err >= ERR_MEMORY_ALLOCATION_FAILED) && (err <= ERR_DATA_IS_NAN)) {
         int index = err - ERR_MEMORY_ALLOCATION_FAILED;
         strncpy(buffer, errors[index], size);
     }
-- 
2.43.0


From 8b97d6f4d86bb46afa6d0f2404e7c6047307ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 03/17] fix: do not write before an empty output buffer

With size = 0 the terminating byte was stored at dst[-1].
---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index a30ce38..e952375 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -172,7 +172,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && (size > 0)) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From bf74878e9e446f08660b97acc47c48d31d2e9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 04/17] fix: reject container capacities that cannot be stored

capacity * sizeof(double) could wrap around (or be zero): the allocation then
succeeded with a buffer that is too small and pushes overflowed it.
---
 src/ubend.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..c2dc22d 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,7 +14,12 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
-    ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    ubend->data = 0x0;
+    // reject empty containers and byte sizes that do not fit
+    if ((capacity > 0) &&
+        (capacity <= __SIZE_MAX__ / __SIZEOF_DOUBLE__)) {
+        ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    }
     if (ubend->data) {
         return 0;
     }
-- 
2.43.0


From 4af7b13fd9768338a5f5e30857b52cd13e35975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 05/17] fix: do not release the tail data twice

ubend_free kept the dangling pointer, so a second spot_free freed it again.
---
 src/ubend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubend.c b/src/ubend.c
index c2dc22d..e2a7057 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -33,6 +33,7 @@ void ubend_free(struct Ubend *ubend) {
     ubend->last_erased_data = _NAN;
     if (ubend->data) {
         xfree(ubend->data);
+        ubend->data = 0x0;
     }
 }
 
-- 
2.43.0


From b352a3053e2aae14125afc4338ee5abc37ee0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 06/17] fix: reject NaN parameters in spot_init

NaN is not between the documented bounds but passed both checks.
---
 src/spot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index e952375..f35d993 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,10 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q < (1. - level)) && (q > 0.0))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From 4fcc1825d809b78ddba86b41802dedad007bbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 07/17] fix: xexp overflows to infinity instead of garbage

The conversion of x / log(2) to an integer is undefined for big inputs:
xexp(1.6e9) was 0 (so xexp(-1.6e9) was infinite) and xexp(+/-oo) was NaN.
---
 src/xmath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..227939c 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    if (x > 1024 * LOG2) {
+        // greater than the biggest double
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
-- 
2.43.0


From ac52f8d6404c3a8f0557efab43ae0ce04641c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 08/17] fix: xlog(+oo) is +oo

It was NaN: the continued fraction was evaluated at infinity.
---
 src/xmath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 227939c..d4c3a6b 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -348,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From 9d489e0ebcf756bfcd6c3834c70474c70e8483dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 09/17] fix: call the log continued fraction directly around 1

frexp exponents of [1/2, 2) are 0 and 1 (not -1): inputs in [1/4, 1/2) were
out of the accurate range of the truncated fraction (error 6e-11 at 1/4) and
all the relative accuracy was lost for inputs slightly greater than 1.
---
 src/xmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xmath.c b/src/xmath.c
index d4c3a6b..1605871 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -361,7 +361,7 @@ double xlog(double x) {
     // }
     int exponent = 0;
     double mantissa = libspot_frexp(x, &exponent);
-    if (exponent == 0 || exponent == -1) {
+    if (exponent == 0 || exponent == 1) {
         return _log_cf_11(x);
     }
     return _log_cf_11(mantissa) + LOG2 * exponent;
-- 
2.43.0


From 440ed4443401093cda04d53f96c426e8cf7cb156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:10 +0000
Subject: [PATCH 10/17] fix: null probability beyond the end point of a bounded
 tail

When gamma < 0 the distribution ends at -sigma/gamma: the probability of a
more extreme value was NaN.
---
 src/tail.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tail.c b/src/tail.c
index 6fcf574..d509f88 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -39,6 +39,10 @@ double tail_probability(struct Tail const *tail, double s, double d) {
         return s * xexp(-d / tail->sigma);
     } else {
         double r = d * (tail->gamma / tail->sigma);
+        // beyond the end point of a bounded tail
+        if ((tail->gamma < 0.0) && (r <= -1.0)) {
+            return 0.0;
+        }
         return s * xpow(1.0 + r, -1.0 / tail->gamma);
     }
 }
-- 
2.43.0


From 04f5c97e55eec795049c05f9e8033ace66ce0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 11/17] fix: no excess threshold without enough training data

With less than 5 values the P2 estimate was 0, whatever the data: spot_fit
succeeded with a threshold that has nothing to do with them. It is now NaN, so
spot_fit returns -ERR_EXCESS_THRESHOLD_IS_NAN.
---
 src/p2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..4575efe 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -116,7 +116,8 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
     double qp;
 
     if (size < 5) {
-        return 0.0;
+        // not enough data to estimate a quantile
+        return 0.0 / 0.0;
     }
     // init q with the 5 first values
     for (i = 0; i < 5; i++) {
-- 
2.43.0


From 13f2ba6cbdbbbe6190b625f0dcdad1707c3903e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 12/17] fix: accept any sequence in Spot.fit

A tuple was handled as a list: PyList_Size failed and the interpreter crashed.
The intermediate list was never released either.
---
 python/libspotmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..cb88ed3 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -129,7 +129,8 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
-    PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
+    // always get a list (PySequence_Fast returns tuples as is)
+    PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
         return NULL;
     }
@@ -146,6 +147,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
     free(x);
+    Py_DECREF(seq);
     // check result
 
     if (result < 0) {
-- 
2.43.0


From 986c1b02ace9e5b3a2e4d3edf2ad140c85d2dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 13/17] fix: propagate the errors to python

A failed fit or a value that is not a number set an exception but the methods
still returned a result (SystemError), or used -1 as data.
---
 python/libspotmodule.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index cb88ed3..8c597be 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -139,9 +139,18 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
 
     // allocate a new raw buffer to pass to the fit method
     double *x = malloc(size * sizeof(double));
+    if (x == NULL && size > 0) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
         // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
         x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        if (PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
@@ -154,6 +163,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
@@ -163,6 +173,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -175,6 +188,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -188,6 +204,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From 9ce8453a5414fc5e231c2aa8ea0308f014abed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 14/17] fix: release the python objects

The deallocator freed the tail but never the Spot object.
---
 python/libspotmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 8c597be..313a933 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -265,7 +265,11 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // free the object itself (and its reference to the heap type)
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free((PyObject *)self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From 229f66f308466f64d1d49601bc814af95593992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 15/17] fix: return a zeroed structure from spot_new

When the parameters are rejected the finalizer still calls spot_free, which
released the garbage pointer of the uninitialized structure.
---
 wasm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/main.c b/wasm/main.c
index dc8ed65..49fd110 100644
--- a/wasm/main.c
+++ b/wasm/main.c
@@ -3,7 +3,7 @@
 #include "stdlib.h"
 #include <emscripten.h>
 
-struct Spot *spot_new(void) { return malloc(sizeof(struct Spot)); }
+struct Spot *spot_new(void) { return calloc(1, sizeof(struct Spot)); }
 
 __SIZE_TYPE__ spot_size(void) { return sizeof(struct Spot); }
 
-- 
2.43.0


From 5de43801b9e878eab9875a223859bb5d3a8944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:54 +0000
Subject: [PATCH 16/17] fix: python: using a Spot object that is not
 initialized raises an exception

step and fit wrote through a null pointer when __init__ had not been called
(Spot.__new__, subclass without super().__init__) or had failed.
---
 python/libspotmodule.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 313a933..b3f3b35 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -128,6 +128,17 @@ PyDoc_STRVAR(Spot_fit_doc,
              "Compute the first excess and anomaly thresholds based "
              "on training data");
 
+// An object may exist without having been initialized (or after a failed
+// initialization): it has no storage for the excesses
+static int is_initialized(Spot *self) {
+    if (self->_spot.tail.peaks.container.data == NULL) {
+        PyErr_SetString(PyExc_RuntimeError,
+                        "The Spot object has not been initialized");
+        return 0;
+    }
+    return 1;
+}
+
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
     // always get a list (PySequence_Fast returns tuples as is)
     PyObject *seq = PySequence_List(data);
@@ -152,6 +163,11 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
             return NULL;
         }
     }
+    if (!is_initialized(self)) {
+        free(x);
+        Py_DECREF(seq);
+        return NULL;
+    }
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -177,6 +193,10 @@ static PyObject *Spot_step(Spot *self, PyObject *x) {
         return NULL;
     }
 
+    if (!is_initialized(self)) {
+        return NULL;
+    }
+
     // libspot API call
     int result = spot_step(&(self->_spot), z);
 
-- 
2.43.0


From c95c7ac4a52cfbc064538a4d39028d997ad432d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:54 +0000
Subject: [PATCH 17/17] fix: python: calling __init__ again releases the
 previous storage

---
 python/libspotmodule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index b3f3b35..3fd143c 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -112,6 +112,9 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
                                      &discard_anomalies, &level, &max_excess))
         return -1;
 
+    // release the previous storage when the object is initialized again
+    spot_free(&(self->_spot));
+
     // libspot API call
     int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
                            max_excess);
-- 
2.43.0

