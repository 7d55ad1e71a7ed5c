From 67b24aeb39ce3a8991ea65f004098e5931139f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 01/13] fix: isnumeric could leave the process's warning
 filters changed

warnings.catch_warnings swaps process-wide state, so two overlapping calls
on different threads could leave warnings ignored for good.
---
 blmath/numerics/predicates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index a76735b..2da0506 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -15,9 +15,8 @@ def isnumeric(x):
         pass
     try:
         # See if it supports mathiness
-        import warnings
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        # np.errstate, not warnings.catch_warnings, which isn't thread-safe.
+        with np.errstate(all='ignore'):
             x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
     except ZeroDivisionError:
         return True
-- 
2.43.0


From e934e35be305c7e30d31a3e2ed08955477fef628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 02/13] fix: isnumeric reported running out of memory as "not
 numeric"

---
 blmath/numerics/predicates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index 2da0506..af6eb24 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -20,6 +20,8 @@ def isnumeric(x):
             x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
     except ZeroDivisionError:
         return True
+    except MemoryError:
+        raise
     except (TypeError, Exception): # FIXME pylint: disable=broad-except
         return False
     else:
-- 
2.43.0


From f9b54ac2362f80882733a83eab8b6a4fc70a7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 03/13] fix: a failed assignment to a Polyline left vertices
 without their edges

v and closed were assigned before the edges were computed, so running out
of memory, an interrupt, or closing a polyline without vertices left edges
of the previous state behind.
---
 blmath/geometry/primitives/polyline.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..d40f3d5 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -65,22 +65,24 @@ class Polyline(object):
             'edges': self.e,
         }
 
-    def _update_edges(self):
-        if self.v is None:
-            self.__dict__['e'] = None
+    def _update_edges(self, v, closed):
+        # Assign v, closed and e in one go, last, so that should anything
+        # fail on the way none of them has changed.
+        if v is None:
+            self.__dict__.update({'v': None, 'closed': closed, 'e': None})
             return
 
-        num_vertices = self.v.shape[0]
-        num_edges = num_vertices if self.closed else num_vertices - 1
+        num_vertices = v.shape[0]
+        num_edges = num_vertices if closed else num_vertices - 1
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if closed:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
 
-        self.__dict__['e'] = edges
+        self.__dict__.update({'v': v, 'closed': closed, 'e': edges})
 
     @setter_property
     def v(self, val):  # setter_property incorrectly triggers method-hidden. pylint: disable=method-hidden
@@ -90,8 +92,8 @@ class Polyline(object):
 
         '''
         from blmath.numerics import as_numeric_array
-        self.__dict__['v'] = as_numeric_array(val, dtype=np.float64, shape=(-1, 3), allow_none=True)
-        self._update_edges()
+        v = as_numeric_array(val, dtype=np.float64, shape=(-1, 3), allow_none=True)
+        self._update_edges(v, self.closed)
 
     @setter_property
     def closed(self, val):
@@ -99,8 +101,7 @@ class Polyline(object):
         Update whether the polyline is closed or open.
 
         '''
-        self.__dict__['closed'] = val
-        self._update_edges()
+        self._update_edges(self.v, val)
 
     @property
     def e(self):
-- 
2.43.0


From 8d8cc84572ae3ad1a4f835f8655b850575ad0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 04/13] fix: Polyline.partition_by_length failed on numpy >=
 1.24

np.int has been removed; any segment that needed dividing raised.
---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d40f3d5..021de5b 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -206,7 +206,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From 678a40bff43adcadd35026ab1b2061b8017b52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 05/13] fix: Value.prettified went stale and, like Value.round,
 raised

The cached form survived changes of value and units. On Python 3 round()
with one argument did not work on a Value.
---
 blmath/value.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..b32b3f3 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -54,7 +52,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=None):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
@@ -167,10 +165,10 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From c5aac74607758cfc4bc515d623058ed0b01323b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 06/13] fix: CompositeTransform shared its matrices with the
 caller

Reusing an array after appending it, or writing to a matrix returned for a
single step, changed the transform.
---
 blmath/geometry/transform/composite.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..c05d19e 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -118,7 +118,8 @@ class CompositeTransform(object):
             return np.eye(4)
 
         matrix = six.moves.reduce(np.dot, matrices)
-        return matrix if reverse else matrix.T
+        # A copy, as a lone matrix is still the one we hold.
+        return np.array(matrix if reverse else matrix.T)
 
     def append_transform4(self, forward, reverse=None):
         '''
@@ -133,7 +134,8 @@ class CompositeTransform(object):
 
         new_index = len(self.transforms)
 
-        self.transforms.append((forward, reverse))
+        # Copies, so the caller is free to reuse the arrays.
+        self.transforms.append((np.array(forward), np.array(reverse)))
 
         return new_index
 
-- 
2.43.0


From 42f7098b84afc4d343704cc20fd0703d8c5c7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 07/13] fix: CompositeTransform.convert_units did not return
 the step's index

---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index c05d19e..30858bb 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -193,7 +193,7 @@ class CompositeTransform(object):
             to_units=to_units,
             units_class='length'
         )
-        self.scale(factor)
+        return self.scale(factor)
 
     def translate(self, vector):
         '''
-- 
2.43.0


From df0d65c54d3b5a71e72f774e26a914f92a0bc4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 08/13] fix: cholmod crashed when out of memory or given a
 rectangular matrix

No allocation or status was checked. A leading block that was not positive
definite was reported as a complete factorization, since minor was read
after cholmod_l_factor_to_sparse resets it.
---
 blmath/numerics/linalg/cholmod.c | 91 +++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 26 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..6c53c10 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -163,39 +163,51 @@ static PyObject *
 cholmod_lchol_c(PyObject *self, PyObject *args)
 {
     cholmod_common Common;
-    cholmod_sparse A, *Lsparse;
-    cholmod_factor *L;
-    PyObject *Apython,
-             *in_shape,
-             *Jc,
-             *Ir,
-             *Adata,
-             *nnz;
-    PyArrayObject *indices,
-                  *indptr,
-                  *Ldata,
-                  *perm;
+    cholmod_sparse A, *Lsparse = NULL;
+    cholmod_factor *L = NULL;
+    PyObject *Apython = NULL,
+             *in_shape = NULL,
+             *Jc = NULL,
+             *Ir = NULL,
+             *Adata = NULL,
+             *nnz = NULL,
+             *result = NULL;
+    PyArrayObject *indices = NULL,
+                  *indptr = NULL,
+                  *Ldata = NULL,
+                  *perm = NULL;
     Int nrow, ncol, minor;
     npy_intp dims_output[3];
 
-    cholmod_l_start(&Common);
-    sputil_config(&Common);
-
-    Apython = NULL;
     if (!PyArg_ParseTuple(args, "O", &Apython))
         return NULL;
 
-    in_shape = PyObject_GetAttrString(Apython, "shape");
-    nrow = PyInt_AsLong(PyTuple_GetItem(in_shape, 0));
-    ncol = PyInt_AsLong(PyTuple_GetItem(in_shape, 1));
-    Py_DECREF(in_shape);
+    if (!cholmod_l_start(&Common))
+    {
+        PyErr_SetString(PyExc_RuntimeError, "Could not start CHOLMOD");
+        return NULL;
+    }
+    sputil_config(&Common);
 
+    in_shape = PyObject_GetAttrString(Apython, "shape");
     Jc = PyObject_GetAttrString(Apython, "indptr");
     Ir = PyObject_GetAttrString(Apython, "indices");
     Adata = PyObject_GetAttrString(Apython, "data");
     nnz = PyObject_GetAttrString(Apython, "nnz");
+    if (PyErr_Occurred())
+        goto done;
 
+    nrow = PyInt_AsLong(PyTuple_GetItem(in_shape, 0));
+    ncol = PyInt_AsLong(PyTuple_GetItem(in_shape, 1));
     A.nzmax = PyInt_AsLong(nnz);
+    if (PyErr_Occurred())
+        goto done;
+    if (nrow != ncol)
+    {
+        PyErr_SetString(PyExc_ValueError, "Expected a square matrix");
+        goto done;
+    }
+
     A.nrow = nrow;
     A.ncol = ncol;
     A.packed = TRUE;
@@ -212,10 +224,17 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     A.xtype = CHOLMOD_REAL;
 
     L = cholmod_l_analyze(&A, &Common);
+    if (L == NULL)
+        goto failed;
     cholmod_l_factorize(&A, L, &Common);
+    if (Common.status < CHOLMOD_OK)
+        goto failed;
+    /* L is left symbolic by cholmod_l_factor_to_sparse, minor included */
+    minor = L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
+    if (Lsparse == NULL)
+        goto failed;
 
-    minor = L->minor;
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
@@ -227,6 +246,9 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     cholmod_l_drop(1.0e-6, Lsparse, &Common);
 #endif
 
+    if (Common.status < CHOLMOD_OK)
+        goto failed;
+
     dims_output[0] = Lsparse->nzmax;
     dims_output[1] = Lsparse->ncol + 1;
     dims_output[2] = Lsparse->nzmax;
@@ -234,19 +256,36 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     indptr = (PyArrayObject*)PyArray_SimpleNew(1, &(dims_output[1]), NPY_INT64);
     Ldata = (PyArrayObject*)PyArray_SimpleNew(1, &(dims_output[2]), NPY_DOUBLE);
     perm = (PyArrayObject*)PyArray_SimpleNew(1, &ncol, NPY_INT64);
+    if (indices == NULL || indptr == NULL || Ldata == NULL || perm == NULL)
+        goto done;
 
     memcpy(PyArray_DATA(indices), Lsparse->i, PyArray_NBYTES(indices));
     memcpy(PyArray_DATA(indptr), Lsparse->p, PyArray_NBYTES(indptr));
     memcpy(PyArray_DATA(Ldata), Lsparse->x, PyArray_NBYTES(Ldata));
     memcpy(PyArray_DATA(perm), L->Perm, PyArray_NBYTES(perm));
 
-    Py_DECREF(Jc);
-    Py_DECREF(Ir);
-    Py_DECREF(Adata);
-    Py_DECREF(nnz);
+    result = Py_BuildValue("OOOiO", indices, indptr, Ldata, (minor == ncol) ? 0 : (int)(minor+1), perm);
+    goto done;
+
+failed:
+    if (Common.status == CHOLMOD_OUT_OF_MEMORY || Common.status == CHOLMOD_TOO_LARGE)
+        PyErr_NoMemory();
+    else
+        PyErr_Format(PyExc_RuntimeError, "CHOLMOD failed with status %d", Common.status);
+
+done:
+    Py_XDECREF(indices);
+    Py_XDECREF(indptr);
+    Py_XDECREF(Ldata);
+    Py_XDECREF(perm);
+    Py_XDECREF(in_shape);
+    Py_XDECREF(Jc);
+    Py_XDECREF(Ir);
+    Py_XDECREF(Adata);
+    Py_XDECREF(nnz);
     cholmod_l_free_factor(&L, &Common);
     cholmod_l_free_sparse(&Lsparse, &Common);
     cholmod_l_finish(&Common);
 
-    return Py_BuildValue("NNNiN", indices, indptr, Ldata, (minor == ncol) ? 0 : (minor+1), perm);
+    return result;
 }
-- 
2.43.0


From 7e76cdb536e967908a8bf186bf33702d5257b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 09/13] fix: lchol misread matrices that are not sorted
 double-precision csc

Integer, single-precision and complex data, unsorted or repeated indices
and other formats with indptr were passed to native code as they were;
indices out of range crashed it. L of a failed factorization had the wrong
shape.
---
 blmath/numerics/linalg/lchol.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..b0687c3 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -1,17 +1,24 @@
 def lchol(A):
-    import copy
     import numpy as np
     import scipy.sparse as sp
     from blmath.numerics.linalg import cholmod # pylint: disable=no-name-in-module
 
+    if np.iscomplexobj(A):
+        raise ValueError("Expected a real matrix")
+
+    # cholmod reads doubles, and relies on valid, sorted indices without duplicates
+    A64 = sp.csc_matrix(A, dtype=np.float64, copy=True)
+    A64.check_format(full_check=True)
+    A64.sum_duplicates()
+
     # the cholmod port needs 64b data, while scipy sparse is 32b
-    A64 = copy.copy(A)
-    A64.indices = A.indices.astype(np.int64)
-    A64.indptr = A.indptr.astype(np.int64)
+    A64.indices = A64.indices.astype(np.int64)
+    A64.indptr = A64.indptr.astype(np.int64)
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    # when A is not positive definite, L has only the columns before the breakdown
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1))
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 6295d76e5ac7c840b9205841fc8dac37f0822b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 10/13] fix: CoordinateManager did not refuse an unknown frame
 of an empty mesh

A mesh without vertices was returned before the tags were looked up.
---
 blmath/geometry/transform/coordinate_manager.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..e9f2511 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -63,6 +63,12 @@ class CoordinateManager(object):
     def do_transform(self, points_or_mesh, from_tag, to_tag):
         from copy import copy
 
+        try:
+            from_index = self.tags_to_indices[from_tag]
+            to_index = self.tags_to_indices[to_tag]
+        except KeyError as e:
+            raise KeyError("No such tag: %s" % e.message)
+
         if hasattr(points_or_mesh, 'v'):
             points = points_or_mesh.v
             # Can't run the transform if there are no vertices.
@@ -71,12 +77,6 @@ class CoordinateManager(object):
         else:
             points = points_or_mesh
 
-        try:
-            from_index = self.tags_to_indices[from_tag]
-            to_index = self.tags_to_indices[to_tag]
-        except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
-
         if from_index == to_index:
             result_points = points
         elif from_index < to_index:
-- 
2.43.0


From 028afddd095afcd3c174e1b3af099eeadce05597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 11/13] fix: CoordinateManager can be copied and pickled

---
 blmath/geometry/transform/coordinate_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index e9f2511..0158921 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -108,6 +108,11 @@ class CoordinateManager(object):
         self.__dict__['points_or_mesh'] = value
 
     def __getattr__(self, name):
+        # Copying and unpickling ask for optional special methods, and do so
+        # before there is any state.
+        if name.startswith('__') and name not in self.__dict__.get('tags_to_indices', {}):
+            raise AttributeError(name)
+
         if self.points_tag is None:
             raise ValueError('Must set a value before trying to read one')
 
-- 
2.43.0


From 10c634458be3fa6bb82c5fd486daf766d2621b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 12/13] fix: isnumeric reported running out of stack as "not
 numeric"

---
 blmath/numerics/predicates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index af6eb24..3f01e07 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -1,3 +1,8 @@
+from six.moves import builtins
+
+# Running out of memory or of stack says nothing about the argument.
+OUT_OF_RESOURCES = (MemoryError, getattr(builtins, 'RecursionError', MemoryError))
+
 def isnumeric(x):
     import numpy as np
     if hasattr(x, '__iter__'):
@@ -20,7 +25,7 @@ def isnumeric(x):
             x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
     except ZeroDivisionError:
         return True
-    except MemoryError:
+    except OUT_OF_RESOURCES:
         raise
     except (TypeError, Exception): # FIXME pylint: disable=broad-except
         return False
-- 
2.43.0


From 44c11b1c03b8ce6e3aa1e02bbb675e2d3fe69125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 13/13] fix: CompositeTransform computed products of its
 matrices in the caller's narrow types

---
 blmath/geometry/transform/composite.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 30858bb..06c8eb9 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -129,13 +129,16 @@ class CompositeTransform(object):
         The new transformation is added to the end. Return its index.
 
         '''
-        if reverse is None:
-            reverse = np.linalg.inv(forward)
+        # Copies, so the caller is free to reuse the arrays, and in at least
+        # double precision, as products of small integers do not fit their type.
+        forward = np.array(forward)
+        forward = forward.astype(np.promote_types(forward.dtype, np.float64))
+        reverse = np.linalg.inv(forward) if reverse is None else np.array(reverse)
+        reverse = reverse.astype(np.promote_types(reverse.dtype, np.float64))
 
         new_index = len(self.transforms)
 
-        # Copies, so the caller is free to reuse the arrays.
-        self.transforms.append((np.array(forward), np.array(reverse)))
+        self.transforms.append((forward, reverse))
 
         return new_index
 
@@ -172,8 +175,9 @@ class CompositeTransform(object):
         if factor <= 0:
             raise ValueError('Scale factor should be greater than zero')
 
-        forward3 = np.diag(np.repeat(factor, 3))
-        reverse3 = np.diag(np.repeat(1./factor, 3))
+        factors = np.repeat(factor, 3).astype(np.float64)
+        forward3 = np.diag(factors)
+        reverse3 = np.diag(1./factors)
 
         return self.append_transform3(forward3, reverse3)
 
@@ -220,7 +224,8 @@ class CompositeTransform(object):
         forward[:, -1][:-1] = vector
 
         reverse = np.eye(4)
-        reverse[:, -1][:-1] = -vector
+        # Not -vector, which may be unsigned.
+        reverse[:, -1][:-1] = -forward[:, -1][:-1]
 
         return self.append_transform4(forward, reverse)
 
-- 
2.43.0

