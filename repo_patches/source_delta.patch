From eadefbd5ad9d832e2f7adb2ba15dcf67603172ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:27 +0000
Subject: [PATCH 01/25] fix: kbnsum: use the stride when scanning for more
 infinities and nans

After the first inf, the rest of the slice was read as if it were
contiguous, so for a strided slice the result depended on memory that
is not part of the slice.
---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From a83d5c7e592df91b9a575fd48673c6b9f204f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:27 +0000
Subject: [PATCH 02/25] fix: bincount: ignore unsigned values that do not fit
 in npy_intp

A uint64 value of at least 2**63 was converted to a negative npy_intp,
passed the test against m, and was then used as an index, which wrote
outside of the output array.
---
 src/bincount/bincount_gufunc.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..fbecfce 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -36,7 +36,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uint64>(k) < static_cast<npy_uint64>(m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +44,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uint64>(k) < static_cast<npy_uint64>(m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +53,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (k >= 0 && static_cast<npy_uint64>(k) < static_cast<npy_uint64>(m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +82,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uint64>(k) < static_cast<npy_uint64>(m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +130,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uint64>(k) < static_cast<npy_uint64>(m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From 2f02ba076d42a354945b930f2f702ea41db9b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 03/25] fix: bincount: do not wrap around when computing the
 default m

np.max(x) + 1 was computed in the type of x, so an input that contained
the largest value of its type (e.g. 127 for int8) gave an empty result.
---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..3d34371 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From 3cbb81f5c137c518788267e92210420b74ada8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:21 +0000
Subject: [PATCH 04/25] fix: bincount: keep the contents of out when NumPy
 buffers it

The gufuncs add to the values in out, but NumPy was told that out is
write-only, so when it had to use a temporary copy (out has another data
type or byte order, is not aligned or overlaps x) the counts were added
to uninitialized memory.
---
 src/bincount/bincount_gufunc.h           | 34 ++++++++++++++++++++++++
 src/bincount/define_cxx_gufunc_extmod.py |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index fbecfce..e22d8dc 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -10,6 +10,7 @@
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 #include "numpy/npy_math.h"
+#include "numpy/ufuncobject.h"
 
 #include "../src/util/strided.hpp"
 
@@ -138,4 +139,37 @@ bincountw_complex_core_calc(
     }
 }
 
+//
+// The name of this function is listed in the `extra_module_funcs`
+// attribute of the UFuncExtMod object that defines the gufuncs
+// `bincount` and `bincountw`.  A call of this function will be added
+// to the end of the generated extension module.
+//
+// The gufuncs accumulate into `out`, so when NumPy has to give the core
+// function a temporary copy of `out` (because `out` has a different data
+// type or byte order, is not aligned, or overlaps an input), the copy must
+// hold the contents of `out`.
+//
+static int set_bincount_out_readwrite(PyObject *module)
+{
+    const char *names[] = {"bincount", "bincountw"};
+    for (int k = 0; k < 2; ++k) {
+        PyUFuncObject *gufunc = (PyUFuncObject *)
+                                PyObject_GetAttrString(module, names[k]);
+        if (gufunc == NULL) {
+            return -1;
+        }
+        // These are the flags that NumPy uses by default for the outputs
+        // of a gufunc, with WRITEONLY replaced by READWRITE.
+        gufunc->op_flags[gufunc->nin] = (NPY_ITER_READWRITE
+                                         | NPY_ITER_UPDATEIFCOPY
+                                         | NPY_ITER_ALIGNED
+                                         | NPY_ITER_ALLOCATE
+                                         | NPY_ITER_NO_BROADCAST
+                                         | NPY_ITER_NO_SUBTYPE);
+        Py_DECREF(gufunc);
+    }
+    return 0;
+}
+
 #endif  // UFUNCLAB_BINCOUNT_GUFUNC_H
diff --git a/src/bincount/define_cxx_gufunc_extmod.py b/src/bincount/define_cxx_gufunc_extmod.py
index 0786eaf..e1256de 100644
--- a/src/bincount/define_cxx_gufunc_extmod.py
+++ b/src/bincount/define_cxx_gufunc_extmod.py
@@ -71,4 +71,5 @@ extmod = UFuncExtMod(
     docstring=("This extension module defines the gufuncs 'bincount' "
                "and 'bincountw'."),
     ufuncs=[bincount, bincountw],
+    extra_module_funcs=['set_bincount_out_readwrite'],
 )
-- 
2.43.0


From cc81ff6e165cf3769a70855db60adafbcb35db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:21 +0000
Subject: [PATCH 05/25] fix: percentileofscore: set the output when kind is
 invalid

The output was left uninitialized; now it is nan.
---
 src/percentileofscore/percentileofscore_gufunc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..a4c5ea4 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -5,6 +5,8 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <limits>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -81,6 +83,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Invalid kind.
+            *p_out = std::numeric_limits<double>::quiet_NaN();
+            return;
     }
 }
 
-- 
2.43.0


From 9ba3efbcbdad61267f14c8b11d60da4a7ca07109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 06/25] fix: convert_to_base: do not trap when base is 0 or -1

Integer division by 0, and division of the smallest integer by -1, ended
the process with SIGFPE.
---
 src/convert_to_base/convert_to_base_gufunc.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..df6d8dd 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -4,6 +4,9 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <cfenv>
+#include <type_traits>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -20,6 +23,19 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+    if (base == 0 || (std::is_signed_v<T> && base == static_cast<T>(-1))) {
+        // The digits are all 0 when base is -1, and, like the remainder
+        // operator of NumPy, when base is 0.  The division can't be done
+        // in either case: division by 0 and dividing the smallest integer
+        // by -1 both trap.
+        if (base == 0 && n > 0) {
+            std::feraiseexcept(FE_DIVBYZERO);
+        }
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_out, out_stride, i, static_cast<T>(0));
+        }
+        return;
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From 659502a1418d600633df2606e402cf15c05a038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 07/25] fix: sosfilter: set the output when there are no filter
 sections

With an empty sos array the output was left uninitialized.  The filter
with no sections is the identity.
---
 src/sosfilter/sosfilter_gufunc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..967b450 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -57,6 +57,8 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            // If m is 0, there are no filter sections and y is x.
+            p_y[i] = xi;
         }
     }
     else {
@@ -79,6 +81,8 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            // If m is 0, there are no filter sections and y is x.
+            set(p_y, y_stride, i, xi);
         }
     }
 }
@@ -124,6 +128,8 @@ static void sosfilter_ic_contig_core(
 
             xi = yi;
         }
+        // If m is 0, there are no filter sections and y is x.
+        p_y[i] = xi;
     }
 }
 
-- 
2.43.0


From f18942690070d11a27dd97b3df1409064073cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 08/25] fix: sosfilter: check for failure of the allocation of
 the state

Raise MemoryError instead of dereferencing the null pointer.
---
 src/sosfilter/sosfilter_gufunc.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 967b450..2511d86 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -147,9 +147,15 @@ static void sosfilter_core(
 {
     npy_intp zi_strides[2];
 
-    // XXX FIXME: Check the return value of calloc for NULL.
-    // What to do if calloc() fails?
-    T *zi = (T *) calloc(m*2, sizeof(T));
+    // Allocate at least one element, so NULL always means failure.
+    T *zi = (T *) calloc((m > 0) ? m*2 : 1, sizeof(T));
+    if (zi == NULL) {
+        NPY_ALLOW_C_API_DEF
+        NPY_ALLOW_C_API
+            PyErr_NoMemory();
+        NPY_DISABLE_C_API
+        return;
+    }
     zi_strides[0] = 2*sizeof(T);
     zi_strides[1] = sizeof(T);
     if (sos_strides[0] == 6*sizeof(T) && sos_strides[1] == sizeof(T)
-- 
2.43.0


From a1c9dbc57c97424ba8f5f37889c600fc100101d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 09/25] fix: gufunc object loops: stop when an exception was
 raised

The generated loops called the core function for the remaining items
with the exception still set, which usually lost the exception: the call
returned normally, with some of the results not computed.
---
 tools/cxxgen/gufuncgen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..c5fbb92 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,13 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if any(vct.startswith('PyObject') for vct in var_ctypes):
+        # The core function can run Python code.  If that raised an
+        # exception, it must be propagated before any more code is run.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From 94d50f36069b0a4efa618c8f074c002970802014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:08 +0000
Subject: [PATCH 10/25] fix: ordered: compare consecutive elements of object
 arrays

Every element was compared with the first element, so, for example,
[1, 3, 2] was considered to be in increasing order.
---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..d42ee98 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -143,6 +143,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From 98faa07308c760d1f4f7d4061ecfb919d17a6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 11/25] fix: object gufunc loops: own the references used
 across callbacks

The loops for object arrays kept borrowed references to array elements
while they called Python code that can replace those elements, and they
overwrote the elements of out without releasing the objects there.
---
 src/all_same/all_same_gufunc.h             |   7 +-
 src/cross/cross_gufunc.h                   |  81 +++++++------
 src/first/first_gufunc.h                   |  50 +++-----
 src/minmax/minmax_gufunc.h                 | 131 ++++++++++++++++-----
 src/ordered/ordered_gufunc.h               |  10 +-
 src/peaktopeak/peaktopeak_gufunc.c.src     |  31 +++--
 src/searchsorted/searchsorted_gufunc.c.src |   8 +-
 src/util/object_tools.h                    |  35 ++++++
 8 files changed, 238 insertions(+), 115 deletions(-)
 create mode 100644 src/util/object_tools.h

diff --git a/src/all_same/all_same_gufunc.h b/src/all_same/all_same_gufunc.h
index 18e924b..a89a0d7 100644
--- a/src/all_same/all_same_gufunc.h
+++ b/src/all_same/all_same_gufunc.h
@@ -10,6 +10,7 @@
 #include "numpy/ndarraytypes.h"
 
 #include "../src/util/strided.hpp"
+#include "../src/util/object_tools.h"
 
 
 template<typename T>
@@ -42,17 +43,19 @@ static void all_same_core_object(
     *p_out = true;
     if (n > 1) {
         PyObject *first = *p_x;
+        Py_INCREF(first);
         for (npy_intp k = 1; k < n; ++k) {
             PyObject *x = get(p_x, x_stride, k);
-            int ne = PyObject_RichCompareBool(x, first, Py_NE);
+            int ne = ul_object_compare(x, first, Py_NE);
             if (ne == -1) {
-                return;
+                break;
             }
             if (ne == 1) {
                 *p_out = false;
                 break;
             }
         }
+        Py_DECREF(first);
     }
 }
 
diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..e4d2a50 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -15,6 +15,7 @@
 #include "numpy/ufuncobject.h"
 
 #include "../src/util/strided.hpp"
+#include "../src/util/object_tools.h"
 
 //
 // `cross3_core_calc`, the C++ core function
@@ -49,20 +50,25 @@ cross3_core_calc(
 //
 static PyObject *det2(PyObject *a, PyObject *b, PyObject *c, PyObject *d)
 {
-    PyObject *p0, *p1, *diff;
-
+    PyObject *p0, *p1, *diff = NULL;
+
+    // The operations can run arbitrary Python code, and that code can
+    // replace the elements of the array that the arguments were taken from.
+    Py_INCREF(a);
+    Py_INCREF(b);
+    Py_INCREF(c);
+    Py_INCREF(d);
     p0 = PyNumber_Multiply(a, d);
-    if (p0 == NULL) {
-        return NULL;
-    }
-    p1 = PyNumber_Multiply(b, c);
-    if (p1 == NULL) {
-        Py_DECREF(p0);
-        return NULL;
+    p1 = (p0 == NULL) ? NULL : PyNumber_Multiply(b, c);
+    if (p1 != NULL) {
+        diff = PyNumber_Subtract(p0, p1);
     }
-    diff = PyNumber_Subtract(p0, p1);
-    Py_DECREF(p0);
-    Py_DECREF(p1);
+    Py_XDECREF(p0);
+    Py_XDECREF(p1);
+    Py_DECREF(a);
+    Py_DECREF(b);
+    Py_DECREF(c);
+    Py_DECREF(d);
     return diff;
 }
 
@@ -81,34 +87,36 @@ cross3_core_calc_object(
     npy_intp out_stride  // stride (in bytes) for elements of out
 )
 {
-    PyObject* u0 = get(p_u, u_stride, 0);
-    PyObject* u1 = get(p_u, u_stride, 1);
-    PyObject* u2 = get(p_u, u_stride, 2);
-    PyObject* v0 = get(p_v, v_stride, 0);
-    PyObject* v1 = get(p_v, v_stride, 1);
-    PyObject* v2 = get(p_v, v_stride, 2);
-
-    PyObject* out0 = det2(u1, u2, v1, v2);
-    if (out0 == NULL) {
-        return;
+    PyObject* u[3];
+    PyObject* v[3];
+    PyObject* result[3] = {NULL, NULL, NULL};
+
+    for (int k = 0; k < 3; ++k) {
+        u[k] = get(p_u, u_stride, k);
+        v[k] = get(p_v, v_stride, k);
+        Py_INCREF(u[k]);
+        Py_INCREF(v[k]);
     }
 
-    PyObject* out1 = det2(u2, u0, v2, v0);
-    if (out1 == NULL) {
-        Py_DECREF(out0);
-        return;
+    result[0] = det2(u[1], u[2], v[1], v[2]);
+    if (result[0] != NULL) {
+        result[1] = det2(u[2], u[0], v[2], v[0]);
     }
-
-    PyObject* out2 = det2(u0, u1, v0, v1);
-    if (out2 == NULL) {
-        Py_DECREF(out0);
-        Py_DECREF(out1);
-        return;
+    if (result[1] != NULL) {
+        result[2] = det2(u[0], u[1], v[0], v[1]);
+    }
+    if (result[2] != NULL) {
+        for (int k = 0; k < 3; ++k) {
+            ul_object_assign((PyObject **) ((char *) p_out + k*out_stride),
+                             result[k]);
+        }
     }
 
-    set(p_out, out_stride, 0, out0);
-    set(p_out, out_stride, 1, out1);
-    set(p_out, out_stride, 2, out2);
+    for (int k = 0; k < 3; ++k) {
+        Py_XDECREF(result[k]);
+        Py_DECREF(u[k]);
+        Py_DECREF(v[k]);
+    }
 }
 
 //
@@ -156,7 +164,8 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    ul_object_assign(p_out, out);
+    Py_DECREF(out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..64b73a5 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -8,6 +8,7 @@
 #include "numpy/ndarraytypes.h"
 
 #include "../src/util/strided.hpp"
+#include "../src/util/object_tools.h"
 
 
 enum comparison_op: int8_t {
@@ -111,35 +112,6 @@ first_core_calc(
     p_out[0] = result;
 }
 
-static inline PyObject *
-first_object(npy_intp n,
-             PyObject* *p_x,
-             npy_intp x_stride,
-             int py_op,
-             PyObject* *p_target,
-             PyObject* *p_otherwise)
-{
-    PyObject* result = *p_otherwise;
-    // XXX This relies on the enumerated values of the Python comparison
-    // operations (Py_LT, etc) being between 0 and 5.
-    if (py_op < 0 || py_op > 5) {
-        return result;
-    }
-    PyObject* target = *p_target;
-    for (npy_intp k = 0; k < n; ++k) {
-        PyObject* x = get(p_x, x_stride, k);
-        int cmp = PyObject_RichCompareBool(x, target, py_op);
-        if (cmp == -1) {
-            return NULL;  // Error occurred in PyObject_RichCompareBool().
-        }
-        if (cmp == 1) {
-            result = x;
-            break;
-        }
-    }
-    return result;
-}
-
 static void
 first_core_calc_object(
     npy_intp n,         // core dimension n
@@ -152,27 +124,35 @@ first_core_calc_object(
 )
 {
     PyObject* result = *p_otherwise;
+    Py_INCREF(result);
     int py_op = *p_op;
     // XXX This relies on the enumerated values of the Python comparison
     // operations (Py_LT, etc) being between 0 and 5.
     if (py_op >= 0 && py_op <= 5) {
         PyObject* target = *p_target;
+        Py_INCREF(target);
         for (npy_intp k = 0; k < n; ++k) {
             PyObject* x = get(p_x, x_stride, k);
+            Py_INCREF(x);
             int cmp = PyObject_RichCompareBool(x, target, py_op);
             if (cmp == -1) {
                 // Error occurred in PyObject_RichCompareBool().
-                result = NULL;
+                Py_DECREF(x);
+                Py_CLEAR(result);
                 break;
             }
             if (cmp == 1) {
-                result = x;
+                Py_SETREF(result, x);
                 break;
             }
+            Py_DECREF(x);
         }
+        Py_DECREF(target);
+    }
+    if (result != NULL) {
+        ul_object_assign(p_out, result);
+        Py_DECREF(result);
     }
-    Py_XINCREF(result);
-    *p_out = result;
 }
 
 
@@ -257,9 +237,10 @@ argfirst_core_calc_object(
     // operations (Py_LT, etc) being between 0 and 5.
     if (py_op >= 0 && py_op <= 5) {
         PyObject* target = *p_target;
+        Py_INCREF(target);
         for (npy_intp k = 0; k < n; ++k) {
             PyObject* x = get(p_x, x_stride, k);
-            int cmp = PyObject_RichCompareBool(x, target, py_op);
+            int cmp = ul_object_compare(x, target, py_op);
             if (cmp == -1) {
                 // Error occurred in PyObject_RichCompareBool().
                 result = -2;
@@ -270,6 +251,7 @@ argfirst_core_calc_object(
                 break;
             }
         }
+        Py_DECREF(target);
     }
     *p_out = result;
 }
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..7db158f 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -11,6 +11,7 @@
 #include "numpy/ndarraytypes.h"
 
 #include "../src/util/strided.hpp"
+#include "../src/util/object_tools.h"
 
 
 
@@ -46,30 +47,43 @@ static void minmax_object_core(
 {
     PyObject *xmin = *p_x;
     PyObject *xmax = xmin;
+    Py_INCREF(xmin);
+    Py_INCREF(xmax);
+    bool failed = false;
 
     for (npy_intp k = 1; k < n; ++k) {
         PyObject *x = get(p_x, x_stride, k);
+        Py_INCREF(x);
         int lt = PyObject_RichCompareBool(x, xmin, Py_LT);
         if (lt == -1) {
-            return;  // XXX FIXME
+            Py_DECREF(x);
+            failed = true;
+            break;
         }
         if (lt == 1) {
-            xmin = x;
+            Py_SETREF(xmin, x);
         }
         else {
             int gt = PyObject_RichCompareBool(x, xmax, Py_GT);
             if (gt == -1) {
-                return;  // XXX FIXME
+                Py_DECREF(x);
+                failed = true;
+                break;
             }
             if (gt == 1) {
-                xmax = x;
+                Py_SETREF(xmax, x);
+            }
+            else {
+                Py_DECREF(x);
             }
         }
     }
-    Py_INCREF(xmin);
-    Py_INCREF(xmax);
-    *p_out = xmin;
-    set(p_out, out_stride, 1, xmax);
+    if (!failed) {
+        ul_object_assign(p_out, xmin);
+        ul_object_assign((PyObject **) ((char *) p_out + out_stride), xmax);
+    }
+    Py_DECREF(xmin);
+    Py_DECREF(xmax);
 }
 
 
@@ -113,32 +127,47 @@ static void argminmax_object_core(
 {
     PyObject *xmin = *p_x;
     PyObject *xmax = xmin;
+    Py_INCREF(xmin);
+    Py_INCREF(xmax);
     npy_intp xmin_index = 0;
     npy_intp xmax_index = 0;
+    bool failed = false;
 
     for (npy_intp k = 1; k < n; ++k) {
         PyObject *x = get(p_x, x_stride, k);
+        Py_INCREF(x);
         int lt = PyObject_RichCompareBool(x, xmin, Py_LT);
         if (lt == -1) {
-            return;  // XXX FIXME
+            Py_DECREF(x);
+            failed = true;
+            break;
         }
         if (lt == 1) {
-            xmin = x;
+            Py_SETREF(xmin, x);
             xmin_index = k;
         }
         else {
             int gt = PyObject_RichCompareBool(x, xmax, Py_GT);
             if (gt == -1) {
-                return;  // XXX FIXME
+                Py_DECREF(x);
+                failed = true;
+                break;
             }
             if (gt == 1) {
-                xmax = x;
+                Py_SETREF(xmax, x);
                 xmax_index = k;
             }
+            else {
+                Py_DECREF(x);
+            }
         }
     }
-    *p_out = xmin_index;
-    set(p_out, out_stride, 1, xmax_index);
+    Py_DECREF(xmin);
+    Py_DECREF(xmax);
+    if (!failed) {
+        *p_out = xmin_index;
+        set(p_out, out_stride, 1, xmax_index);
+    }
 }
 
 
@@ -175,19 +204,30 @@ static void argmin_object_core(
 {
     PyObject *xmin = *p_x;
     npy_intp xmin_index = 0;
+    bool failed = false;
+    Py_INCREF(xmin);
 
     for (npy_intp k = 1; k < n; ++k) {
         PyObject *x = get(p_x, x_stride, k);
+        Py_INCREF(x);
         int test = PyObject_RichCompareBool(x, xmin, Py_LT);
         if (test == -1) {
-            return;  // XXX FIXME
+            Py_DECREF(x);
+            failed = true;
+            break;
         }
         if (test == 1) {
-            xmin = x;
+            Py_SETREF(xmin, x);
             xmin_index = k;
         }
+        else {
+            Py_DECREF(x);
+        }
+    }
+    Py_DECREF(xmin);
+    if (!failed) {
+        *p_out = xmin_index;
     }
-    *p_out = xmin_index;
 }
 
 
@@ -221,19 +261,30 @@ static void argmax_object_core(
 {
     PyObject *xmax = *p_x;
     npy_intp xmax_index = 0;
+    bool failed = false;
+    Py_INCREF(xmax);
 
     for (npy_intp k = 1; k < n; ++k) {
         PyObject *x = get(p_x, x_stride, k);
+        Py_INCREF(x);
         int test = PyObject_RichCompareBool(x, xmax, Py_GT);
         if (test == -1) {
-            return;  // XXX FIXME
+            Py_DECREF(x);
+            failed = true;
+            break;
         }
         if (test == 1) {
-            xmax = x;
+            Py_SETREF(xmax, x);
             xmax_index = k;
         }
+        else {
+            Py_DECREF(x);
+        }
+    }
+    Py_DECREF(xmax);
+    if (!failed) {
+        *p_out = xmax_index;
     }
-    *p_out = xmax_index;
 }
 
 
@@ -270,21 +321,31 @@ static void min_argmin_object_core(
 {
     PyObject *xmin = *p_x;
     npy_intp xmin_index = 0;
+    bool failed = false;
+    Py_INCREF(xmin);
 
     for (npy_intp k = 1; k < n; ++k) {
         PyObject *x = get(p_x, x_stride, k);
+        Py_INCREF(x);
         int test = PyObject_RichCompareBool(x, xmin, Py_LT);
         if (test == -1) {
-            return;  // XXX FIXME
+            Py_DECREF(x);
+            failed = true;
+            break;
         }
         if (test == 1) {
-            xmin = x;
+            Py_SETREF(xmin, x);
             xmin_index = k;
         }
+        else {
+            Py_DECREF(x);
+        }
     }
-    Py_INCREF(xmin);
-    *p_out1 = xmin;
-    *p_out2 = xmin_index;
+    if (!failed) {
+        ul_object_assign(p_out1, xmin);
+        *p_out2 = xmin_index;
+    }
+    Py_DECREF(xmin);
 }
 
 
@@ -321,21 +382,31 @@ static void max_argmax_object_core(
 {
     PyObject *xmax = *p_x;
     npy_intp xmax_index = 0;
+    bool failed = false;
+    Py_INCREF(xmax);
 
     for (npy_intp k = 1; k < n; ++k) {
         PyObject *x = get(p_x, x_stride, k);
+        Py_INCREF(x);
         int test = PyObject_RichCompareBool(x, xmax, Py_GT);
         if (test == -1) {
-            return;  // XXX FIXME
+            Py_DECREF(x);
+            failed = true;
+            break;
         }
         if (test == 1) {
-            xmax = x;
+            Py_SETREF(xmax, x);
             xmax_index = k;
         }
+        else {
+            Py_DECREF(x);
+        }
     }
-    Py_INCREF(xmax);
-    *p_out1 = xmax;
-    *p_out2 = xmax_index;
+    if (!failed) {
+        ul_object_assign(p_out1, xmax);
+        *p_out2 = xmax_index;
+    }
+    Py_DECREF(xmax);
 }
 
 #endif  // UFUNCLAB_MINMAX_GUFUNC_H
diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index d42ee98..10f9a50 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -8,6 +8,7 @@
 #include "numpy/ndarraytypes.h"
 
 #include "../src/util/strided.hpp"
+#include "../src/util/object_tools.h"
 
 
 // XXX/DRY: comparison_op copied from first_gufunc.h.
@@ -133,18 +134,21 @@ static void ordered_core_object(
     *p_out = true;
     if (n > 1) {
         PyObject *x1 = *p_x;
+        Py_INCREF(x1);
         for (npy_intp k = 1; k < n; ++k) {
             PyObject *x2 = get(p_x, x_stride, k);
-            int cmp = PyObject_RichCompareBool(x1, x2, op);
+            Py_INCREF(x2);
+            int cmp = ul_object_compare(x1, x2, op);
+            Py_SETREF(x1, x2);
             if (cmp == -1) {
-                return;
+                break;
             }
             if (cmp == 0) {
                 *p_out = false;
                 break;
             }
-            x1 = x2;
         }
+        Py_DECREF(x1);
     }
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..265d32c 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -16,6 +16,8 @@
 #include "numpy/arrayscalars.h"
 #include "numpy/ufuncobject.h"
 
+#include "../src/util/object_tools.h"
+
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 // ufunc inner loops for integer and floating point types.
@@ -199,35 +201,48 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         char *inner = in;
         PyObject *xmin = *(PyObject **) inner;
         PyObject *xmax = xmin;
+        PyObject *diff = NULL;
+        bool failed = false;
+        Py_INCREF(xmin);
+        Py_INCREF(xmax);
         inner += core_in_step;
         for (npy_intp k = 1; k < dimensions[1]; ++k, inner += core_in_step) {
             PyObject *x = *(PyObject **) inner;
+            Py_INCREF(x);
             int lt = PyObject_RichCompareBool(x, xmin, Py_LT);
             if (lt == -1) {
-                return;
+                Py_DECREF(x);
+                failed = true;
+                break;
             }
             if (lt == 1) {
-                xmin = x;
+                Py_SETREF(xmin, x);
             }
             else {
                 int gt = PyObject_RichCompareBool(x, xmax, Py_GT);
                 if (gt == -1) {
-                    return;
+                    Py_DECREF(x);
+                    failed = true;
+                    break;
                 }
                 if (gt == 1) {
-                    xmax = x;
+                    Py_SETREF(xmax, x);
+                }
+                else {
+                    Py_DECREF(x);
                 }
             }
         }
-        Py_INCREF(xmin);
-        Py_INCREF(xmax);
-        PyObject *diff = PyNumber_Subtract(xmax, xmin);
+        if (!failed) {
+            diff = PyNumber_Subtract(xmax, xmin);
+        }
         Py_DECREF(xmin);
         Py_DECREF(xmax);
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        ul_object_assign((PyObject **) out, diff);
+        Py_DECREF(diff);
     }
 }
 
diff --git a/src/searchsorted/searchsorted_gufunc.c.src b/src/searchsorted/searchsorted_gufunc.c.src
index c0f0a7b..becc21f 100644
--- a/src/searchsorted/searchsorted_gufunc.c.src
+++ b/src/searchsorted/searchsorted_gufunc.c.src
@@ -17,6 +17,8 @@
 #include "numpy/ufuncobject.h"
 #include "numpy/halffloat.h"
 
+#include "../src/util/object_tools.h"
+
 #ifdef UNDEFINED
 XXX Temporarily disabled...
 
@@ -285,7 +287,7 @@ _searchsortedl_object(char *a, npy_intp len_a, npy_intp step, PyObject *v)
     while (lo < hi) {
         npy_intp mid = (lo + hi)/2;
         PyObject *m = *(PyObject **)(a + mid*step);
-        int lt = PyObject_RichCompareBool(m, v, Py_LT);
+        int lt = ul_object_compare(m, v, Py_LT);
         if (lt == -1) {
             // Error occurred
             return -1;
@@ -308,7 +310,7 @@ _searchsortedr_object(char *a, npy_intp len_a, npy_intp step, PyObject *v)
     while (lo < hi) {
         npy_intp mid = (lo + hi)/2;
         PyObject *m = *(PyObject **)(a + mid*step);
-        int lt = PyObject_RichCompareBool(v, m, Py_LT);
+        int lt = ul_object_compare(v, m, Py_LT);
         if (lt == -1) {
             // Error occurred
             return -1;
@@ -346,8 +348,10 @@ searchsorted@side@_object_loop(char **args, const npy_intp *dimensions,
                                           element += element_step,
                                           out += out_step) {
         PyObject *v = *((PyObject **) element);
+        Py_INCREF(v);
         *((npy_intp *)out) = _searchsorted@side@_object(sortedarr, len_sortedarr,
                                                         sortedarr_inner_step, v);
+        Py_DECREF(v);
         if (*((npy_intp *)out) == -1) {
             return;
         }
diff --git a/src/util/object_tools.h b/src/util/object_tools.h
new file mode 100644
index 0000000..0e88851
--- /dev/null
+++ b/src/util/object_tools.h
@@ -0,0 +1,35 @@
+#ifndef UFUNCLAB_OBJECT_TOOLS_H
+#define UFUNCLAB_OBJECT_TOOLS_H
+
+#define PY_SSIZE_T_CLEAN
+#include "Python.h"
+
+//
+// Same as PyObject_RichCompareBool(), but holds references to x and y during
+// the comparison.  The comparison can run arbitrary Python code, and that
+// code can replace the elements of the array that x and y were taken from.
+//
+static inline int
+ul_object_compare(PyObject *x, PyObject *y, int op)
+{
+    Py_INCREF(x);
+    Py_INCREF(y);
+    int result = PyObject_RichCompareBool(x, y, op);
+    Py_DECREF(x);
+    Py_DECREF(y);
+    return result;
+}
+
+//
+// Replace the (owned) reference *p_dst with a new reference to obj.
+//
+static inline void
+ul_object_assign(PyObject **p_dst, PyObject *obj)
+{
+    PyObject *old = *p_dst;
+    Py_XINCREF(obj);
+    *p_dst = obj;
+    Py_XDECREF(old);
+}
+
+#endif  // UFUNCLAB_OBJECT_TOOLS_H
-- 
2.43.0


From 1777f27f8429edfe5dc437d4a3d8fb1a3a7e364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 12/25] fix: gendot: use the item size of prodfunc's output for
 the intermediate array

The intermediate array was allocated with the item size of sumfunc's
output, so a sumfunc with a narrower output type overflowed it.  Element-
wise sumfunc loops whose output type differs from the input type can not
be used for the reduction, so skip them.
---
 src/gendot/gendotmodule.c | 32 +++++++++++++++++++++-----------
 ufunclab/_gendot_wrap.py  |  9 ++++++++-
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..67b633f 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -17,7 +17,8 @@ typedef struct gendot_data_t {
     void *prodfunc_loop_data;
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
-    npy_intp sumfunc_loop_itemsize;
+    npy_intp prodfunc_loop_itemsize;  // size of the output of prodfunc_loop
+    npy_intp sumfunc_loop_itemsize;   // size of the output of sumfunc_loop
     npy_intp sumfunc_nin;
     npy_intp sumfunc_has_identity; // actual values are only 0 or 1.
     // sumfunc_identity_buffer is large enough to hold an instance
@@ -29,6 +30,7 @@ typedef struct gendot_data_t {
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
+#define PRODFUNC_LOOP_ITEMSIZE(p)   (((gendot_data_t *)(p))->prodfunc_loop_itemsize)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
 #define SUMFUNC_NIN(p)              (((gendot_data_t *)(p))->sumfunc_nin)
 #define SUMFUNC_HAS_IDENTITY(p)     (((gendot_data_t *)(p))->sumfunc_has_identity)
@@ -71,7 +73,7 @@ reduce(PyUFuncGenericFunction *loop_function, void *loop_data,
     loop_steps[0] = stride;
     loop_steps[1] = stride;
     loop_steps[2] = stride;
-    for (int k = 1; k < n; ++k, data += stride) {
+    for (npy_intp k = 1; k < n; ++k, data += stride) {
         loop_args[1] = data;
         ((PyUFuncGenericFunction)loop_function)(loop_args, loop_dimensions, loop_steps, loop_data);
     }
@@ -99,14 +101,17 @@ gendot_loop(char **args, const npy_intp *dimensions,
     npy_intp prodfunc_dimensions[3];
     npy_intp prodfunc_steps[3];
 
-    size_t itemsize = SUMFUNC_LOOP_ITEMSIZE(data);
+    // itemsize is the size of the elements of the intermediate result, i.e.
+    // of the output of prodfunc.  The elements of the output of the gufunc
+    // have the size of the output of sumfunc.
+    size_t itemsize = PRODFUNC_LOOP_ITEMSIZE(data);
 
     if (dimensions[1] == 0) {
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
-            for (int j = 0; j < nloops; ++j, pout += steps[2]) {
-                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
+            for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
+                memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), SUMFUNC_LOOP_ITEMSIZE(data));
             }
             return;
         }
@@ -153,7 +158,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     if (SUMFUNC_NIN(data) == 2) {
         // sumfunc is an element-wise ufunc with 2 inputs and 1 output.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -175,7 +180,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -208,15 +213,17 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
     PyObject *loop_indices = NULL;
     PyObject *typecodes = NULL;
     PyObject *itemsizes = NULL;
+    PyObject *prod_itemsizes = NULL;
     static char *kwlist[] = {"name", "doc", "prodfunc", "sumfunc",
                              "sumfunc_has_identity",
                              "sumfunc_identity_array",
-                             "loop_indices", "typecodes", "itemsizes", NULL};
+                             "loop_indices", "typecodes", "itemsizes",
+                             "prod_itemsizes", NULL};
     // The type checks are included here, but in fact, the code will assume
     // that the inputs have all been validated by the calling code.  Invalid
     // arguments (e.g. arrays with the wrong size or wrong data type) will
     // almost certainly cause the program to crash.
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ssO!O!pO!O!O!O!:gendot", kwlist,
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ssO!O!pO!O!O!O!O!:gendot", kwlist,
                                      &name,
                                      &doc,
                                      &PyUFunc_Type, &prodfunc,
@@ -225,7 +232,8 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
                                      &PyArray_Type, &sumfunc_identity_array,
                                      &PyArray_Type, &loop_indices,
                                      &PyArray_Type, &typecodes,
-                                     &PyArray_Type, &itemsizes)) {
+                                     &PyArray_Type, &itemsizes,
+                                     &PyArray_Type, &prod_itemsizes)) {
         return NULL;
     }
 
@@ -237,6 +245,7 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
 
     npy_intp nloops = PyArray_DIMS((PyArrayObject *)loop_indices)[0];
     npy_intp *gendot_itemsizes = PyArray_DATA((PyArrayObject *)itemsizes);
+    npy_intp *gendot_prod_itemsizes = PyArray_DATA((PyArrayObject *)prod_itemsizes);
 
     uint8_t *sumfunc_identity_data =
             PyArray_DATA((PyArrayObject *)sumfunc_identity_array);
@@ -315,6 +324,7 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
+        gendot_data[i].prodfunc_loop_itemsize = gendot_prod_itemsizes[i];
         gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
@@ -351,7 +361,7 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
 
 static char gendot_docstring[] =
 "_gendot(name, doc, prodfunc, sumfunc, sumfunc_identity_array, "
-"loop_indices, typecodes, itemsizes)\n"
+"loop_indices, typecodes, itemsizes, prod_itemsizes)\n"
 "\n"
 "*** This is not a public function! Use at your own risk! ***\n"
 "\n"
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..c15d987 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -168,6 +168,10 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
             sum_intype = sum_type.replace(' ', '').split('->')[0]
+            if sumfunc.nin == 2 and sum_type[-1] != prod_outtype:
+                # The result of a reduction step is an input of the next
+                # step, so the input and output types must be the same.
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
@@ -175,6 +179,9 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
                  for prod_type, sum_type in dot_types]
     itemsizes = np.array([np.dtype(c[-1]).itemsize for c in typechars],
                          dtype=np.intp)  # Actually, np.uint8 would be OK.
+    prod_itemsizes = np.array([np.dtype(prod_type[-1]).itemsize
+                               for prod_type, sum_type in dot_types],
+                              dtype=np.intp)
 
     typecodes = np.array([[reverse_typedict[np.dtype(c).type] for c in chars]
                           for chars in typechars],
@@ -195,4 +202,4 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
 
     return _gendot(name, doc, prodfunc,
                    sumfunc, sumfunc_has_identity, sumfunc_identity_array,
-                   loop_indices, typecodes, itemsizes)
+                   loop_indices, typecodes, itemsizes, prod_itemsizes)
-- 
2.43.0


From 92b59912989ec91adbf68069d40bd0621fa8ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 13/25] fix: linear_interp1d: do not read past the end of xp
 and fp

With n == 0 the path for a fixed x and xp read xp[0] and xp[-1], and with
n == 1 and a nan in x or xp both paths read xp[1] and fp[1].
---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..0039f28 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,14 +89,14 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if ((n > 0) && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if ((x < left) || (x > right) || (n == 1 && x != left)) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp, or if there is only one value and x or xp is NAN.
             for (int j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
@@ -133,9 +133,9 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if ((x < left) || (x > right) || (n == 1 && x != left)) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp, or if there is only one value and x or xp is NAN.
             *((@ctype@ *) pout) = NPY_NAN;
             continue;
         }
-- 
2.43.0


From 2876f82703fbdc820ebcdd83520881acbe7a6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 14/25] fix: ordered: do not pass an invalid op to
 PyObject_RichCompareBool()

---
 src/ordered/ordered_gufunc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 10f9a50..2f4fd47 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -131,6 +131,10 @@ static void ordered_core_object(
         npy_bool *p_out     // pointer to out
 ) {
     int op = *p_op;
+    if (op < LT || op > GE) {
+        // As in ordered_core(), any other value means GE.
+        op = GE;
+    }
     *p_out = true;
     if (n > 1) {
         PyObject *x1 = *p_x;
-- 
2.43.0


From 5bbd8618aea39e85d9587b143e714cb36b867680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/25] fix: unwrap: do not convert an out of range number of
 periods to int

The number of periods was cast to int, which is undefined (and gave
arbitrary finite values) when it is nan, because x[0] is not finite, or
too large.
---
 src/unwrap/unwrap_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..8a23a75 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = std::trunc(delta/period + std::copysign(0.5, delta));
     return x1 - q * period;
 }
 
-- 
2.43.0


From bc1a6cb4dc22ce49840d408a036244d58cdba02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:15 +0000
Subject: [PATCH 16/25] fix: bincount: do not truncate the values that are
 already in a floating point out

The type of the calculation was determined by the weights (or was an
integer type when there are none), so the fractional part, and with small
integer weights also higher bits, of the contents of out were lost.
---
 ufunclab/_wrapped.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 3d34371..fe4f9fe 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,25 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+# The data types in which the gufunc bincountw can accumulate.
+_bincountw_dtypes = {np.dtype(t[-1]) for t in _bincountw.types}
+
+
+def _cast_weights(weights, out):
+    """
+    Convert `weights` to a type in which the values that are already in
+    `out` can be accumulated; the type of the weights determines the type
+    that the gufunc uses for the calculation.
+    """
+    dtype = np.result_type(weights.dtype, out.dtype)
+    if dtype.kind in 'fc' and dtype not in _bincountw_dtypes:
+        dtype = np.dtype(np.float64 if dtype.kind == 'f' else np.complex128)
+    if (dtype in _bincountw_dtypes and np.can_cast(weights.dtype, dtype)
+            and np.can_cast(dtype, out.dtype, casting='same_kind')):
+        weights = weights.astype(dtype, copy=False)
+    return weights
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -182,6 +201,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
                 msg = ('For the given inputs, out.shape must be '
                        f'{out_shape}; got {out.shape}.')
                 raise ValueError(msg)
+            weights = _cast_weights(weights, out)
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
@@ -196,6 +216,12 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
             if out.shape != out_shape:
                 raise ValueError(f'out.shape must be {out_shape}; '
                                  f'got {out.shape}.')
+            if out.dtype.kind in 'fc':
+                # Don't count in integers; that would discard the fractional
+                # parts of the values that are already in `out`.
+                ones = np.broadcast_to(np.ones((), dtype=np.int8), x.shape)
+                return _bincountw(x, _cast_weights(ones, out), out=out,
+                                  axes=[axis, axis, axis])
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-- 
2.43.0


From 0d5f04db3042878054a8da3de5af1c2ff6522416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:34 +0000
Subject: [PATCH 17/25] fix: gendot: accept np.bitwise_and as sumfunc when
 there are unsigned types

The identity of np.bitwise_and is -1, which NumPy 2 refuses to convert to
an unsigned integer type, so gendot raised OverflowError.
---
 ufunclab/_gendot_wrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index c15d987..379edfa 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -195,7 +195,9 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            # Note that the identity of np.bitwise_and is -1, also for the
+            # unsigned integer types.
+            identity = np.array(sumfunc.identity).astype(np.dtype(tc[-1]))[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From 33e2e12ba9584243f14247208b2c054d6f47942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:00 +0000
Subject: [PATCH 18/25] fix: keep normal.erfcx until the import of the package
 cannot fail any more

If the import of _first or _percentileofscore failed, ufunclab.normal stayed
in sys.modules without erfcx, and no later import of ufunclab could succeed.
---
 ufunclab/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ufunclab/__init__.py b/ufunclab/__init__.py
index 80654ad..2025376 100644
--- a/ufunclab/__init__.py
+++ b/ufunclab/__init__.py
@@ -4,10 +4,11 @@ NumPy ufuncs and utilities.
 import importlib as _imp
 # To allow moving 'erfcx' from the 'normal' submodule to the
 # top-level namespace here in __init__.py, 'normal' is not
-# lazy-loaded.
+# lazy-loaded.  (It is deleted from 'normal' at the end of this
+# file: if an import below fails, the import of the package can
+# be tried again, and 'normal' is not initialized again then.)
 from . import normal
 from .normal import erfcx
-del normal.erfcx
 
 # To allow `op` to be created here, ._first is not lazy-loaded.
 # It is imported here to have access to the constants _LT, _LE, etc.
@@ -145,3 +146,6 @@ __all__ = sorted(list(_name_to_module.keys()) +
 
 def __dir__():
     return __all__
+
+
+del normal.erfcx
-- 
2.43.0


From 9b6297e53677498ac29ab91eed0766977ce59b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:13 +0000
Subject: [PATCH 19/25] fix: return an error from the initialization of _gendot
 if umath cannot be imported

import_ufunc() only sets the exception; the module was returned anyway, which
Python reports as SystemError.
---
 src/gendot/gendotmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 67b633f..7f3b98e 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -408,7 +408,7 @@ PyInit__gendot(void)
     if (PyArray_ImportNumPyAPI() < 0) {
         return NULL;
     }
-    import_ufunc();
+    import_umath();
 
     return module;
 }
-- 
2.43.0


From fc2a7c799a430c930a5e5bbf6ec924999fe13902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 20/25] fix: let generate_ufuncs.py replace the source file of
 an earlier run

An incremental build after a change of a header, and a build that was
interrupted while the generator wrote its file, stopped with 'already exists'.
---
 tools/cxxgen/generate_ufunc_extmod.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 83df409..bef330e 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -159,8 +159,6 @@ def generate_ufunc_extmod(cxxgenpath, extmod, destdir):
     extmod_filename = modulename + '.cxx'
 
     extmod_fullpath = path.join(destdir, extmod_filename)
-    if path.exists(extmod_fullpath):
-        raise RuntimeError(f"file '{extmod_fullpath} already exists.")
 
     all_ufunc_names = [f.ufuncname for f in sum(extmod.funcs.values(), [])]
 
-- 
2.43.0


From 480473f602e6ebb74568e72a920c1121e62b3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 21/25] fix: peaktopeak: report the same floating-point errors
 for every memory layout

For long double, GCC compiled the conditional expressions of the contiguous
loop to quiet comparisons, so that NaNs did not raise FE_INVALID there, while
they did in the loop for other strides.
---
 src/peaktopeak/peaktopeak_gufunc.c.src | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 265d32c..d2c951b 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -49,8 +49,12 @@ peaktopeak_@typename@_contig(npy_intp n, @ctype_in@ *x)
     @ctype_in@ xmax = x[0];
     for (npy_intp i = 1; i < n; ++i) {
         @ctype_in@ xi = x[i];
-        xmin = (xi < xmin) ? xi : xmin;
-        xmax = (xi > xmax) ? xi : xmax;
+        if (xi < xmin) {
+            xmin = xi;
+        }
+        else if (xi > xmax) {
+            xmax = xi;
+        }
     }
 #if @is_signed_int@
     return max_diff_@typename@(xmax, xmin);
-- 
2.43.0


From b263c37c5933278776bebc762526f1a4f162ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 22/25] fix: linear_interp1d: one formula for scalar and array
 x

The loop for a single x computed (x - xp[k])/(xp[k+1] - xp[k]) first, the
general loop the slope, which can overflow (or divide by 0 for NaN x) when the
first does not, so the result and the reported errors depended on whether x
was an array.
---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 0039f28..42d52ad 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -149,8 +149,8 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         else {
             @ctype@ xpk_next = *((@ctype@ *) (pxp + (k + 1)*xp_stride));
             @ctype@ fpk_next = *((@ctype@ *) (pfp + (k + 1)*fp_stride));
-            @ctype@ slope = (fpk_next - fpk)/(xpk_next - xpk);
-            *((@ctype@ *) pout) = fpk + slope * (x - xpk);
+            @ctype@ r = (x - xpk) / (xpk_next - xpk);
+            *((@ctype@ *) pout) = fpk + r*(fpk_next - fpk);
         }
     }
 }
-- 
2.43.0


From ac6cc64497c67e0e5eee2ca78ae3dfc218971a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 23/25] fix: stop the loops of gendot, gini, mad, rmad and
 sosfilter when an allocation fails

An allocation failure in one slice left a MemoryError set while the loop went
on.  If any slice raised a floating-point flag, NumPy then issued its
RuntimeWarning with the exception set, which resulted in a SystemError, or
lost the MemoryError and returned wrong values.
---
 src/gendot/gendotmodule.c                 |  7 ++++
 src/mad/define_cxx_gufunc_extmod.py       |  3 ++
 src/mad/mad_gufunc.h                      | 17 +++++---
 src/sosfilter/define_cxx_gufunc_extmod.py |  1 +
 src/sosfilter/sosfilter_gufunc.h          |  5 ++-
 src/util/loop_error.h                     | 50 +++++++++++++++++++++++
 tools/cxxgen/gufuncgen.py                 | 34 +++++++++++----
 tools/cxxgen/ufunc_config_types.py        |  5 +++
 8 files changed, 107 insertions(+), 15 deletions(-)
 create mode 100644 src/util/loop_error.h

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 7f3b98e..987ff02 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -11,6 +11,8 @@
 #include <numpy/ndarrayobject.h>
 #include <numpy/ufuncobject.h>
 
+#include "../src/util/loop_error.h"
+
 
 typedef struct gendot_data_t {
     PyUFuncGenericFunction *prodfunc_loop;
@@ -127,6 +129,10 @@ gendot_loop(char **args, const npy_intp *dimensions,
         }
     }
 
+    if (ul_exception_is_pending()) {
+        return;
+    }
+
     char *tmp = malloc(dimensions[1] * itemsize);
     if (tmp == NULL) {
         NPY_ALLOW_C_API_DEF
@@ -136,6 +142,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
                 "for intermediate calculation",
                 dimensions[1] * itemsize, dimensions[1], itemsize);
         NPY_DISABLE_C_API
+        ul_clear_fpstatus();
         return;
     }
 
diff --git a/src/mad/define_cxx_gufunc_extmod.py b/src/mad/define_cxx_gufunc_extmod.py
index 62ac603..59b619d 100644
--- a/src/mad/define_cxx_gufunc_extmod.py
+++ b/src/mad/define_cxx_gufunc_extmod.py
@@ -25,6 +25,7 @@ Gini coefficient.
 mad_core_ufunc_src = UFuncSource(
     funcname='mad_core',
     typesignatures=['f?->f', 'd?->d', 'g?->g'],
+    returns_status=True,
 )
 
 mad_ufunc = UFunc(
@@ -40,6 +41,7 @@ mad_ufunc = UFunc(
 rmad_core_ufunc_src = UFuncSource(
     funcname='rmad_core',
     typesignatures=['f?->f', 'd?->d', 'g?->g'],
+    returns_status=True,
 )
 
 rmad_ufunc = UFunc(
@@ -55,6 +57,7 @@ rmad_ufunc = UFunc(
 gini_core_ufunc_src = UFuncSource(
     funcname='gini_core',
     typesignatures=['f?->f', 'd?->d', 'g?->g'],
+    returns_status=True,
 )
 
 gini_ufunc = UFunc(
diff --git a/src/mad/mad_gufunc.h b/src/mad/mad_gufunc.h
index 25e975b..007a24d 100644
--- a/src/mad/mad_gufunc.h
+++ b/src/mad/mad_gufunc.h
@@ -74,7 +74,7 @@ static int unnormalized_mad(npy_intp n, T *p_x, npy_intp x_stride, T& sum, T& to
 // for types ['f?->f', 'd?->d', 'g?->g'].
 //
 template<typename T>
-static void mad_core(
+static int mad_core(
         npy_intp n,            // core dimension n
         T *p_x,                // pointer to first element of x, a strided 1-d array with n elements
         npy_intp x_stride,     // stride (in bytes) for elements of x
@@ -84,7 +84,7 @@ static void mad_core(
 {
     T sum, total;
     if (unnormalized_mad(n, p_x, x_stride, sum, total) != 0) {
-        return;
+        return -1;
     }
 
     if (*p_unbiased) {
@@ -93,6 +93,7 @@ static void mad_core(
     else {
         *p_out = 2*sum/(n*n);
     }
+    return 0;
 }
 
 //
@@ -101,7 +102,7 @@ static void mad_core(
 // for types ['f?->f', 'd?->d', 'g?->g'].
 //
 template<typename T>
-static void gini_core(
+static int gini_core(
         npy_intp n,            // core dimension n
         T *p_x,                // pointer to first element of x, a strided 1-d array with n elements
         npy_intp x_stride,     // stride (in bytes) for elements of x
@@ -111,7 +112,7 @@ static void gini_core(
 {
     T sum, total;
     if (unnormalized_mad(n, p_x, x_stride, sum, total) != 0) {
-        return;
+        return -1;
     }
 
     T denom = (*p_unbiased) ? (n - 1)*total : n*total;
@@ -130,6 +131,7 @@ static void gini_core(
             *p_out = sum / denom;
         }
     }
+    return 0;
 }
 
 //
@@ -138,7 +140,7 @@ static void gini_core(
 // for types ['f?->f', 'd?->d', 'g?->g'].
 //
 template<typename T>
-static void rmad_core(
+static int rmad_core(
         npy_intp n,            // core dimension n
         T *p_x,                // pointer to first element of x, a strided 1-d array with n elements
         npy_intp x_stride,     // stride (in bytes) for elements of x
@@ -147,10 +149,13 @@ static void rmad_core(
 )
 {
     // RMAD is twice the Gini index.
-    gini_core(n, p_x, x_stride, p_unbiased, p_out);
+    if (gini_core(n, p_x, x_stride, p_unbiased, p_out) != 0) {
+        return -1;
+    }
     if (!std::isnan(*p_out)) {
         *p_out *= 2;
     }
+    return 0;
 }
 
 #endif  // UFUNCLAB_MAD_GUFUNC_H
diff --git a/src/sosfilter/define_cxx_gufunc_extmod.py b/src/sosfilter/define_cxx_gufunc_extmod.py
index b8b7176..ccc2566 100644
--- a/src/sosfilter/define_cxx_gufunc_extmod.py
+++ b/src/sosfilter/define_cxx_gufunc_extmod.py
@@ -78,6 +78,7 @@ the program might crash.
 sosfilter_core_source = UFuncSource(
     funcname='sosfilter_core',
     typesignatures=['ff->f', 'dd->d', 'gg->g'],
+    returns_status=True,
 )
 
 sosfilter_gufunc = UFunc(
diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 2511d86..6b7a277 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -134,7 +134,7 @@ static void sosfilter_ic_contig_core(
 }
 
 template<typename T>
-static void sosfilter_core(
+static int sosfilter_core(
         npy_intp m,                     // core dimension m
         npy_intp n,                     // core dimension n
         T *p_sos,                       // pointer to first element of sos, a strided 2-d array with shape (m, 6)
@@ -154,7 +154,7 @@ static void sosfilter_core(
         NPY_ALLOW_C_API
             PyErr_NoMemory();
         NPY_DISABLE_C_API
-        return;
+        return -1;
     }
     zi_strides[0] = 2*sizeof(T);
     zi_strides[1] = sizeof(T);
@@ -171,6 +171,7 @@ static void sosfilter_core(
                           p_out, out_stride, zi, zi_strides);
     }
     free(zi);
+    return 0;
 }
 
 #endif  // UFUNCLAB_SOSFILTER_GUFUNC_H
diff --git a/src/util/loop_error.h b/src/util/loop_error.h
new file mode 100644
index 0000000..e57e375
--- /dev/null
+++ b/src/util/loop_error.h
@@ -0,0 +1,50 @@
+#ifndef UFUNCLAB_LOOP_ERROR_H
+#define UFUNCLAB_LOOP_ERROR_H
+
+//
+// Tools for loop functions of gufuncs without object types that can fail
+// (for example, because they allocate memory).
+//
+// NumPy looks for a Python exception only after the last call of the loop
+// function, and after it has issued the warnings for the floating point
+// errors that the calls left in the status flags.  It must not find any such
+// flags if an exception is set: that would run Python code (the warning)
+// with the exception set.
+//
+
+#define PY_SSIZE_T_CLEAN
+#include "Python.h"
+
+#include <fenv.h>
+
+#define NPY_NO_DEPRECATED_API NPY_API_VERSION
+#include "numpy/ndarraytypes.h"
+
+//
+// Return 1 if a Python exception is set, that is, if a previous call of
+// the loop function failed.
+//
+static inline int
+ul_exception_is_pending(void)
+{
+    int pending;
+
+    NPY_ALLOW_C_API_DEF
+    NPY_ALLOW_C_API
+        pending = (PyErr_Occurred() != NULL);
+    NPY_DISABLE_C_API
+    return pending;
+}
+
+//
+// To be called before a loop function returns with a Python exception set.
+// The results are discarded, so there is nothing to report about the
+// floating point operations.
+//
+static inline void
+ul_clear_fpstatus(void)
+{
+    feclearexcept(FE_ALL_EXCEPT);
+}
+
+#endif  // UFUNCLAB_LOOP_ERROR_H
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index c5fbb92..1a77cf1 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -158,6 +158,7 @@ _include = """
 #include "numpy/ufuncobject.h"
 
 #include "../src/util/ufunc_tools.h"
+#include "../src/util/loop_error.h"
 
 """
 
@@ -179,7 +180,7 @@ def get_varnames_from_docstring_and_sig(docstring, signature):
 def generate_declaration(name, signature,
                          template_types, var_types,
                          varnames, core_dims, shapes,
-                         corename, coretypes):
+                         corename, coretypes, returns_status):
     nct = len(coretypes)
     if nct == 0:
         return ''
@@ -200,7 +201,8 @@ def generate_declaration(name, signature,
         if nct > 1:
             s = ', '.join(['typename ' + tn for tn in template_type_names])
             text.append(f"template<{s}>")
-    text.append(f"static void {corename}(")
+    return_type = 'int' if returns_status else 'void'
+    text.append(f"static {return_type} {corename}(")
 
     vardecls = []
 
@@ -273,7 +275,7 @@ def concrete_loop_function_name(corename, typecodes):
 
 def generate_concrete_loop(name, corename, varnames,
                            template_typecodes, var_types,
-                           core_dims, shapes):
+                           core_dims, shapes, returns_status):
     loop_func_name = concrete_loop_function_name(corename, template_typecodes)
     text = []
     text.append('')
@@ -311,6 +313,12 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('')
         text.append('\n'.join(dim_asserts))
 
+    if returns_status:
+        text.append('')
+        text.append('    if (ul_exception_is_pending()) {')
+        text.append('        return;')
+        text.append('    }')
+
     text.append('')
     text.append('    for (int j = 0; j < nloops; ++j, ')
     for k, varname in enumerate(varnames):
@@ -326,7 +334,10 @@ def generate_concrete_loop(name, corename, varnames,
         template_params = '<' + ', '.join(ctypes) + '>'
     else:
         template_params = ''
-    text.append(f'        {corename}{template_params}(')
+    if returns_status:
+        text.append(f'        int status = {corename}{template_params}(')
+    else:
+        text.append(f'        {corename}{template_params}(')
     core_dim_symbols = [dim for dim in core_dims if not isinstance(dim, int)]
     if len(core_dim_symbols) > 0:
         sp = ' '*16
@@ -356,6 +367,12 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if returns_status:
+        text.append('        if (status != 0) {')
+        text.append('            ul_clear_fpstatus();')
+        text.append('            return;')
+        text.append('        }')
+
     if any(vct.startswith('PyObject') for vct in var_ctypes):
         # The core function can run Python code.  If that raised an
         # exception, it must be propagated before any more code is run.
@@ -440,7 +457,8 @@ def gen(extmod, srcpath):
                                        template_types, var_types,
                                        varnames, core_dims,
                                        shapes,
-                                       corename, coretypes)
+                                       corename, coretypes,
+                                       ufunc_source.returns_status)
             text.append(dec)
 
             text.append('')
@@ -455,7 +473,8 @@ def gen(extmod, srcpath):
                                                         corename, varnames,
                                                         [], var_types,
                                                         core_dims,
-                                                        shapes)
+                                                        shapes,
+                                                        ufunc_source.returns_status)
                 loop_func_names.append(loopname)
                 text.append(code)
             else:
@@ -465,7 +484,8 @@ def gen(extmod, srcpath):
                                                             template_typecodes,
                                                             var_types,
                                                             core_dims,
-                                                            shapes)
+                                                            shapes,
+                                                            ufunc_source.returns_status)
                     loop_func_names.append(loopname)
                     text.append(code)
 
diff --git a/tools/cxxgen/ufunc_config_types.py b/tools/cxxgen/ufunc_config_types.py
index 577f9d6..86de46c 100644
--- a/tools/cxxgen/ufunc_config_types.py
+++ b/tools/cxxgen/ufunc_config_types.py
@@ -13,6 +13,11 @@ class UFuncSource:
     # parameters, if there is more than one type signature).
     typesignatures: List[str]
 
+    # A core function that can fail (for example, because it allocates
+    # memory) must return an int: 0 on success, or -1 with a Python
+    # exception set.  All other core functions must return void.
+    returns_status: bool = False
+
 
 @dataclass
 class UFunc:
-- 
2.43.0


From 13c37399dceb62b7858ab197ff130812966f5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 24/25] fix: gendot gufuncs keep their ufuncs alive

The gufunc made by gendot calls the loops of prodfunc and sumfunc with
their data, but held no reference to them.  With a ufunc whose loops or
data end with it (e.g. one made at run time), calling the gufunc after
the ufunc had been released used freed memory.
---
 src/gendot/gendotmodule.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 987ff02..e8ef167 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -362,6 +362,13 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
     }
     // This memory is freed in the gufunc's dealloc method.
     gufunc->ptr = mem;
+    // The gufunc calls the loops of prodfunc and sumfunc (with their data), so
+    // it must keep them alive.  The gufunc's dealloc method releases obj.
+    gufunc->obj = PyTuple_Pack(2, prodfunc, sumfunc);
+    if (gufunc->obj == NULL) {
+        Py_DECREF(gufunc);
+        return NULL;
+    }
     return (PyObject *) gufunc;
 }
 
-- 
2.43.0


From f6eb18f5c82dc1c96e3d498f22c2f9f7badbb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 25/25] fix: bincount: accumulate in long double

There were no loops for long double weights, so the values in a long double
out array were rounded to double precision by every call.
---
 src/bincount/bincount_gufunc.h           | 7 +++++++
 src/bincount/define_cxx_gufunc_extmod.py | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index e22d8dc..c6a3d5d 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -108,6 +108,13 @@ npy_complex_add_inplace(npy_cdouble *a, npy_cdouble b)
     *((double *) a + 1) += npy_cimag(b);
 }
 
+void static inline
+npy_complex_add_inplace(npy_clongdouble *a, npy_clongdouble b)
+{
+    *((npy_longdouble *) a) += npy_creall(b);
+    *((npy_longdouble *) a + 1) += npy_cimagl(b);
+}
+
 //
 // `bincountw_complex_core_calc` is the C++ core function
 // for the gufunc `bincountw` with signature '(n),(n)->(m)'
diff --git a/src/bincount/define_cxx_gufunc_extmod.py b/src/bincount/define_cxx_gufunc_extmod.py
index e1256de..5ffdad9 100644
--- a/src/bincount/define_cxx_gufunc_extmod.py
+++ b/src/bincount/define_cxx_gufunc_extmod.py
@@ -26,8 +26,8 @@ int_types = [np.dtype('int8'), np.dtype('uint8'),
 
 bincount_types = [f'{t.char}->p' for t in int_types]
 
-float_types = [np.dtype('f'), np.dtype('d')]
-complex_types = [np.dtype('F'), np.dtype('D')]
+float_types = [np.dtype('f'), np.dtype('d'), np.dtype('g')]
+complex_types = [np.dtype('F'), np.dtype('D'), np.dtype('G')]
 bincountw_input_types = product(int_types, int_types + float_types)
 bincountw_types = [f'{in1.char}{in2.char}->{in2.char}'
                    for (in1, in2) in bincountw_input_types]
-- 
2.43.0

