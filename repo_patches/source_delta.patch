From 277fd8c5429f31d0a55c857d9e0943c69cc936b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 001/160] fix: OneDimensionalArray must not convert the
 caller's list in place, nor reject tuples

---
 .../linear_data_structures/arrays.py          | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..e2a579f 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -90,16 +90,10 @@ class OneDimensionalArray(Array):
         if len(args) == 2:
             if _check_type(args[0], list) and \
                 _check_type(args[1], int):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
-                size, data = args[1], list(args[0])
+                size, data = args[1], cls._convert(args[0], dtype)
             elif _check_type(args[1], list) and \
                 _check_type(args[0], int):
-                for i in range(len(args[1])):
-                    if _check_type(args[1][i], dtype) is False:
-                        args[1][i] = dtype(args[1][i])
-                size, data = args[0], list(args[1])
+                size, data = args[0], cls._convert(args[1], dtype)
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
@@ -114,17 +108,23 @@ class OneDimensionalArray(Array):
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
                 obj._size, obj._data = len(args[0]), \
-                                        list(args[0])
+                                        cls._convert(args[0], dtype)
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
 
         return obj
 
+    @staticmethod
+    def _convert(elements, dtype):
+        """
+        Copies elements into a list, converting those
+        which are not of type dtype.
+        """
+        return [dtype(element) if _check_type(element, dtype) is False
+                else element for element in elements]
+
     @classmethod
     def methods(cls):
         return ['__new__', '__getitem__',
-- 
2.43.0


From 239159760aee0cb97b9ddbd79341ba07a5a87631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 002/160] fix: OneDimensionalArray must reject assignment to a
 negative index

---
 pydatastructs/linear_data_structures/arrays.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index e2a579f..8449548 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -137,6 +137,9 @@ class OneDimensionalArray(Array):
         return self._data.__getitem__(i)
 
     def __setitem__(self, idx, elem):
+        if idx >= self._size or idx < 0:
+            raise IndexError(("Index, {} out of range, "
+                              "[{}, {}).".format(idx, 0, self._size)))
         if elem is None:
             self._data[idx] = None
         else:
-- 
2.43.0


From 144c4b8ce0ec9e330d655c8098f236a6b0afbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 003/160] fix: MultiDimensionalArray must check every index
 against its own dimension

---
 pydatastructs/linear_data_structures/arrays.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 8449548..7ac13ad 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -264,9 +264,10 @@ class MultiDimensionalArray(Array):
 
     def _compare_shape(self, indices) -> None:
         indices = [indices] if isinstance(indices, int) else indices
-        if len(indices) != len(self._sizes) - 1:
-            raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        shape = self.shape
+        if len(indices) != len(shape):
+            raise IndexError("Shape mismatch, current shape is %s" % str(shape))
+        if any(not 0 <= indices[i] < shape[i] for i in range(len(indices))):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From cab77038efc226e399e1b20aeb93046e4be9c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 004/160] fix: MultiDimensionalArray with one dimension must
 reject sizes below 1

---
 pydatastructs/linear_data_structures/arrays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 7ac13ad..6a02931 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -210,6 +210,10 @@ class MultiDimensionalArray(Array):
         elif not args:
             raise ValueError("Too few arguments to create a "
                              "multi dimensional array, pass dimensions.")
+        dimensions = args
+        for dimension in dimensions:
+            if dimension < 1:
+                raise ValueError("Size of dimension cannot be less than 1")
         if len(args) == 1:
             obj = Array.__new__(cls)
             obj._dtype = dtype
@@ -217,10 +221,6 @@ class MultiDimensionalArray(Array):
             obj._data = [None] * args[0]
             return obj
 
-        dimensions = args
-        for dimension in dimensions:
-            if dimension < 1:
-                raise ValueError("Size of dimension cannot be less than 1")
         n_dimensions = len(dimensions)
         d_sizes = []
         index = 0
-- 
2.43.0


From f4a3a93b72c86627597513b2ce444a90592a93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 005/160] fix: string form of an empty C++ dynamic array must
 not list its unfilled positions

---
 pydatastructs/utils/_backend/cpp/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 511c224..e135a64 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -48,9 +48,9 @@ static char* PyObject_AsString(PyObject* obj) {
     return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
 }
 
-static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-1) {
+static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2) {
     std::string array___str__ = "[";
-    size_t end = last_pos_filled == -1 ? size : (size_t) (last_pos_filled + 1);
+    size_t end = last_pos_filled == -2 ? size : (size_t) (last_pos_filled + 1);
     for( size_t i = 0; i < end; i++ ) {
         if ( array[i] == Py_None ) {
             array___str__.append("''");
-- 
2.43.0


From e0adc3fa70909668c83e5604881a4c459556bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 006/160] fix: storing a wrong type in a C++ array must raise
 TypeError, not SystemError

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 92f885a..105fa9c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -289,7 +289,7 @@ static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
     size_t idx = (size_t)idx_ll;
 
     if (value != Py_None) {
-        if (set_exception_if_dtype_mismatch(value, self->_dtype)) {
+        if (raise_exception_if_dtype_mismatch(value, self->_dtype)) {
             return -1;
         }
     }
-- 
2.43.0


From 1468f6f11cef59d1ad87a56e8de912fde74683f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 007/160] fix: C++ array must own a reference to init for every
 position it fills

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 105fa9c..13b851f 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -182,6 +182,7 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
             }
 
             for (size_t i = 0; i < self->_size; i++) {
+                Py_INCREF(init);
                 self->_data[i] = init;
             }
 
-- 
2.43.0


From 0962f4cdd0d594b5e1d3b028014193d00f2c1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 008/160] fix: linked lists must reject indices below -size,
 before changing anything

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..e7a2d4e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From 63e78ba9eff2c2fbd22b5b261d2ae31435f7a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 009/160] fix: circular lists must stay closed when a negative
 index inserts at the front

---
 .../linear_data_structures/linked_lists.py    | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index e7a2d4e..50bf999 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -536,13 +536,7 @@ class SinglyCircularLinkedList(SinglyLinkedList):
 
     def insert_at(self, index, key, data=None):
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-        if new_node.next == self.head:
-            self.tail = new_node
+        self.tail.next = self.head
 
     def extract(self, index):
         node = super(SinglyCircularLinkedList, self).extract(index)
@@ -611,17 +605,8 @@ class DoublyCircularLinkedList(DoublyLinkedList):
     def insert_at(self, index, key, data=None):
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-            self.head.prev = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-            new_node.prev = self.tail
-        if new_node.next == self.head:
-            self.tail = new_node
-            new_node.next = self.head
-            self.head.prev = new_node
+        self.tail.next = self.head
+        self.head.prev = self.tail
 
     def extract(self, index):
         node = super(DoublyCircularLinkedList, self).extract(index)
-- 
2.43.0


From 0cfcd2e3482f9e9de9e37f872721a0abe924da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 010/160] fix: circular lists must stay closed in both
 directions after extracting the first node

---
 pydatastructs/linear_data_structures/linked_lists.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 50bf999..bb6958e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -542,7 +542,7 @@ class SinglyCircularLinkedList(SinglyLinkedList):
         node = super(SinglyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
         return node
 
@@ -612,8 +612,9 @@ class DoublyCircularLinkedList(DoublyLinkedList):
         node = super(DoublyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From e833bd8f759d736e824b09b07cb5c120a235b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 011/160] fix: sorting an empty or all-None dynamic array must
 not run off its storage

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp    | 2 +-
 pydatastructs/linear_data_structures/arrays.py            | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 6715d45..3ca4341 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -99,7 +99,7 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
     if ( force == Py_True ) {
         i = -1;
         j = _size - 1;
-        while ( _data[j] == Py_None) {
+        while ( j >= 0 && _data[j] == Py_None) {
             i--;
             j--;
         }
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 6a02931..7dc0de3 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -384,11 +384,11 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         below load factor.
         """
         if force:
-            i = -1
-            while self._data[i] is None:
+            i = self._size - 1
+            while i >= 0 and self._data[i] is None:
                 i -= 1
-            self._last_pos_filled = i%self._size
-        if (self._num/self._size < self._load_factor):
+            self._last_pos_filled = i
+        if self._size > 0 and (self._num/self._size < self._load_factor):
             arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
             j = 0
             for i in range(self._last_pos_filled + 1):
-- 
2.43.0


From 532552b74184e074c1bc2abcef54c82473af5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 012/160] fix: quick_sort must sort whichever element
 pick_pivot_element picks

---
 .../_backend/cpp/algorithms/quick_sort.hpp       | 16 ++++++++++++++++
 .../linear_data_structures/algorithms.py         |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index f3ad0ed..0e0c066 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -25,6 +25,22 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    if ( pick_pivot_element ) {
+        size_t pos = high;
+        while ( pos > low ) {
+            PyObject* pos_PyObject = PyLong_FromSize_t(pos);
+            if ( PyObject_RichCompareBool(PyObject_GetItem(array, pos_PyObject), x, Py_EQ) == 1 ) {
+                break;
+            }
+            pos--;
+        }
+        PyObject* pos_PyObject = PyLong_FromSize_t(pos);
+        PyObject* last_PyObject = PyLong_FromSize_t(high);
+        PyObject* pivot = PyObject_GetItem(array, pos_PyObject);
+        PyObject_SetItem(array, pos_PyObject,
+                         PyObject_GetItem(array, last_PyObject));
+        PyObject_SetItem(array, last_PyObject, pivot);
+    }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
         if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..e90dbdf 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -762,6 +762,10 @@ def quick_sort(array: Array, **kwargs) -> Array:
     def partition(low, high, pick_pivot_element):
         i = (low - 1)
         x = pick_pivot_element(low, high, array)
+        p = high
+        while p > low and array[p] != x:
+            p = p - 1
+        array[p], array[high] = array[high], array[p]
         for j in range(low , high):
             if _comp(array[j], x, comp) is True:
                 i = i + 1
-- 
2.43.0


From b4ab1d91ae6d9d87893832d3f32daac18afe0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 013/160] fix: quick_sort must accept an empty array and a
 partition ending at index 0

---
 .../_backend/cpp/algorithms/quick_sort.hpp                   | 5 ++++-
 pydatastructs/linear_data_structures/algorithms.py           | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 0e0c066..5d2e9ab 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -67,6 +67,9 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
     size_t low, high, p;
     std::stack<size_t> rstack;
 
+    if ( (int64_t) lower >= (int64_t) upper ) {
+        return array;
+    }
     rstack.push(lower);
     rstack.push(upper);
 
@@ -77,7 +80,7 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
-        if ( p - 1 > low ) {
+        if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
         }
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index e90dbdf..6ad5d78 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -777,8 +777,9 @@ def quick_sort(array: Array, **kwargs) -> Array:
     upper = kwargs.get('end', len(array) - 1)
     stack = Stack()
 
-    stack.push(lower)
-    stack.push(upper)
+    if lower < upper:
+        stack.push(lower)
+        stack.push(upper)
 
     while stack.is_empty is False:
         high = stack.pop()
-- 
2.43.0


From b148c7e24b6d9861365b2639ed38144f37a632ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 014/160] fix: C++ bubble_sort and jump_search must accept an
 empty array

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp                | 3 +++
 .../_backend/cpp/algorithms/quadratic_time_sort.hpp            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 4527955..790ba8b 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -214,6 +214,9 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
     }
+    if ((int64_t) lower > (int64_t) upper) {
+        Py_RETURN_NONE;
+    }
     int step = int(sqrt(double(upper - lower + 1)));
     int prev = lower;
     int element_pos = prev;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 792c1a6..9c95b77 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -11,7 +11,7 @@
 // Bubble Sort
 static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp, size_t arr_length) {
-    for (size_t i = 0; i < arr_length - 1; i++) {
+    for (size_t i = 0; i + 1 < arr_length; i++) {
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
-- 
2.43.0


From 0061eef43855abf593e2aad1fc8ae727bbb8e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 015/160] fix: merge_sort_parallel must accept an empty range

---
 pydatastructs/linear_data_structures/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 6ad5d78..4fbdfb1 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -120,8 +120,8 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
-    for size in range(floor(log(end - start + 1, 2)) + 1):
-        pow_2 = 2**size
+    pow_2 = 1
+    while pow_2 < end - start + 1:
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             i = start
             while i <= end:
@@ -132,6 +132,7 @@ def merge_sort_parallel(array, num_threads, **kwargs):
                     i + pow_2, i + 2*pow_2 - 1,
                     end, comp).result()
                 i = i + 2*pow_2
+        pow_2 = 2*pow_2
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
-- 
2.43.0


From 3f4ed0837192e43fd514b7e323e0551d55177f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 016/160] fix: brick sorts must terminate when the range has
 equal elements

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 4fbdfb1..1d01677 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -192,11 +192,11 @@ def brick_sort(array, **kwargs):
     while is_sorted is False:
         is_sorted = True
         for i in range(start+1, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _comp(array[i+1], array[i], comp) and not _comp(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
         for i in range(start, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _comp(array[i+1], array[i], comp) and not _comp(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
 
@@ -204,7 +204,7 @@ def brick_sort(array, **kwargs):
         array._modify(True)
 
 def _brick_sort_swap(array, i, j, comp, is_sorted):
-    if _comp(array[j], array[i], comp):
+    if _comp(array[j], array[i], comp) and not _comp(array[i], array[j], comp):
         array[i], array[j] = array[j], array[i]
         is_sorted[0] = False
 
-- 
2.43.0


From f799763b7833607d02d57c556db7072f26b536ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 017/160] fix: bucket_sort must sort small, negative, all-None
 and unevenly spread values

---
 .../linear_data_structures/algorithms.py         | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 1d01677..90c3f23 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -562,10 +562,11 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     end = kwargs.get('end', len(array) - 1)
 
     #Find maximum value in the list and use length of the list to determine which value in the list goes into which bucket
-    max_value = None
+    max_value, min_value = None, None
     for i in range(start, end+1):
         if array[i] is not None:
             max_value = array[i]
+            min_value = array[i]
 
     count = 0
     for i in range(start, end+1):
@@ -573,9 +574,13 @@ def bucket_sort(array: Array, **kwargs) -> Array:
             count += 1
             if array[i] > max_value:
                 max_value = array[i]
+            if array[i] < min_value:
+                min_value = array[i]
+    if count == 0:
+        return array
 
     number_of_null_values = end - start + 1 - count
-    size = max_value // count
+    size = (max_value - min_value) // count + 1
 
     # Create n empty buckets where n is equal to the length of the input list
     buckets_list = [[] for _ in range(count)]
@@ -583,11 +588,8 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     # Put list elements into different buckets based on the size
     for i in range(start, end + 1):
         if array[i] is not None:
-            j = array[i] // size
-            if j is not count:
-                buckets_list[j].append(array[i])
-            else:
-                buckets_list[count-1].append(array[i])
+            j = int((array[i] - min_value) // size)
+            buckets_list[j].append(array[i])
 
     # Sort elements within the buckets using Insertion Sort
     for z in range(count):
-- 
2.43.0


From cc4ada7e05a4070fdbc7dd75f9c7d605e85cd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 018/160] fix: radix_sort must accept an empty range and None
 in first place or among zeros

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 90c3f23..4966ac7 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1986,12 +1986,12 @@ def radix_sort(array, *args, **kwargs):
     end = int(kwargs.get('end', len(array) - 1))
 
     n = end - start + 1
-    max_val = array[start]
-    for i in range(start + 1, end + 1):
+    max_val = 0
+    for i in range(start, end + 1):
         if array[i] is not None and array[i] > max_val:
             max_val = array[i]
     exp = 1
-    while max_val // exp > 0:
+    while exp == 1 or max_val // exp > 0:
         count = [0] * 10
         output = [None] * n
 
-- 
2.43.0


From 611508081269480a9f03330b8dd189eb85a2ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 019/160] fix: counting_sort must accept an empty array

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 4966ac7..12f0f52 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -388,7 +388,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
     """
     raise_if_backend_is_not_python(
         counting_sort, kwargs.get('backend', Backend.PYTHON))
-    max_val, min_val = array[0], array[0]
+    max_val, min_val = None, None
     none_count = 0
     for i in range(len(array)):
         if array[i] is not None:
-- 
2.43.0


From b6fce8ff6933ba0657423b66db1a5032b17842e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 020/160] fix: jump_search must begin its jumps at start and
 accept an empty range

---
 pydatastructs/linear_data_structures/algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 12f0f52..3a85dcf 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1741,8 +1741,10 @@ def jump_search(array, value, **kwargs):
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u < v)
 
+    if start > end:
+        return None
     step = int(sqrt(end - start + 1))
-    current_position = step
+    current_position = start + step
     prev = start
     while comp(array[min(current_position, end)], value):
         prev = current_position
-- 
2.43.0


From d3e9e53c9c15cf86dc2af1084bbd11251f97576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 021/160] fix: lower_bound and upper_bound must accept an empty
 range

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 3a85dcf..f0e02c8 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -993,7 +993,7 @@ def upper_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if comp(value, array[start]):
+    if start < end and comp(value, array[start]):
         index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
@@ -1066,7 +1066,7 @@ def lower_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if not comp(array[start], value):
+    if start < end and not comp(array[start], value):
         index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
-- 
2.43.0


From 49a2cd09162684e69394889eb64aef2154120b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 022/160] fix: is_ordered must accept equal neighbours and look
 past None

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp       | 11 ++++++-----
 pydatastructs/linear_data_structures/algorithms.py    |  8 +++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 790ba8b..07384c2 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -10,15 +10,16 @@
 // is_ordered
 static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
-    for (size_t i = lower + 1; i < upper + 1; i++) {
+    PyObject* prev_item = NULL;
+    for (size_t i = lower; i < upper + 1; i++) {
         PyObject* i_PyObject = PyLong_FromSize_t(i);
-        PyObject* i1_PyObject = PyLong_FromSize_t(i-1);
         PyObject* i_item = PyObject_GetItem(array, i_PyObject);
-        PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
-        if (i_item == Py_None || i1_item == Py_None) continue;
-        if ( _comp(i_item, i1_item, comp) == 1 ) {
+        if (i_item == Py_None) continue;
+        if ( prev_item && _comp(i_item, prev_item, comp) == 1 &&
+             _comp(prev_item, i_item, comp) != 1 ) {
             return false;
         }
+        prev_item = i_item;
     }
     return true;
 }
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index f0e02c8..763ffbe 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -925,11 +925,13 @@ def is_ordered(array, **kwargs):
     upper = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
 
-    for i in range(lower + 1, upper + 1):
-        if array[i] is None or array[i - 1] is None:
+    prev = None
+    for i in range(lower, upper + 1):
+        if array[i] is None:
             continue
-        if comp(array[i], array[i - 1]):
+        if prev is not None and comp(array[i], prev) and not comp(prev, array[i]):
             return False
+        prev = array[i]
     return True
 
 def upper_bound(array, value, **kwargs):
-- 
2.43.0


From fb8534e8f9929f3903076d6d3bd14ee5e910f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 023/160] fix: longest_increasing_subsequence must keep the
 element type and accept an empty array

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 763ffbe..186a816 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1139,13 +1139,13 @@ def longest_increasing_subsequence(array, **kwargs):
             ceil = lower_bound(curr_array, array[i])
             dp[ceil] = i
             parent[i] = dp[ceil - 1]
-    ans = DynamicOneDimensionalArray(int, 0)
-    last_index = dp[length]
+    ans = DynamicOneDimensionalArray(array._dtype, 0)
+    last_index = dp[length] if n > 0 else -1
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
     n = ans._last_pos_filled + 1
-    ans_ODA = OneDimensionalArray(int, n)
+    ans_ODA = OneDimensionalArray(array._dtype, n)
     for i in range(n):
         ans_ODA[n-1-i] = ans[i]
     return ans_ODA
-- 
2.43.0


From 47da8333f9cd6256769cae0962c5656e0c85c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 024/160] fix: next_permutation and prev_permutation must keep
 the element type

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 186a816..3132fc4 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1152,7 +1152,7 @@ def longest_increasing_subsequence(array, **kwargs):
 
 def _permutation_util(array, start, end, comp, perm_comp):
     size = end - start + 1
-    permute = OneDimensionalArray(int, size)
+    permute = OneDimensionalArray(array._dtype, size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
     i = size - 1
-- 
2.43.0


From 0f14cb9b15c575a2992ae4342acad2292975450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 025/160] fix: prev_permutation must handle repeated elements

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 3132fc4..9c002f1 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1314,7 +1314,7 @@ def prev_permutation(array, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
 
     def _prev_permutation_comp(x, y, _comp):
-        if _comp(x, y):
+        if not _comp(y, x):
             return True
         else:
             return False
-- 
2.43.0


From 63cd7a08d678f14048b72be52efc3d15911b03a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 026/160] fix: matrix_multiply_parallel must multiply matrices
 that are not square

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 9c002f1..5e2e6a9 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -426,7 +426,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
 
 def _matrix_multiply_helper(m1, m2, row, col):
     s = 0
-    for i in range(len(m1)):
+    for i in range(len(m2)):
         s += m1[row][i] * m2[i][col]
     return s
 
@@ -481,7 +481,7 @@ def matrix_multiply_parallel(matrix_1, matrix_2, num_threads):
         raise ValueError("Matrix size mismatch: %s * %s"%(
         (row_matrix_1, col_matrix_1), (row_matrix_2, col_matrix_2)))
 
-    C = [[None for i in range(col_matrix_1)] for j in range(row_matrix_2)]
+    C = [[None for i in range(col_matrix_2)] for j in range(row_matrix_1)]
 
     with ThreadPoolExecutor(max_workers=num_threads) as Executor:
         for i in range(row_matrix_1):
-- 
2.43.0


From 465713ac1ca6f96ca2eed44c0b4c5d468752fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 027/160] fix: LLVM selection_sort must build valid code of its
 own, not run bubble sort's

---
 .../cpp/algorithms/llvm_algorithms.py         | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 56b548c..40c2ae0 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -197,6 +197,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
     # Basic blocks
     b_entry = fn.append_basic_block("entry")
     b_outer = fn.append_basic_block("outer")
+    b_inner_init = fn.append_basic_block("inner.init")
     b_inner = fn.append_basic_block("inner")
     b_inner_latch = fn.append_basic_block("inner.latch")
     b_swap = fn.append_basic_block("swap")
@@ -212,15 +213,19 @@ def _build_selection_sort_ir(dtype: str) -> str:
     i_phi.add_incoming(ir.Constant(i32, 0), b_entry)  # start at 0
 
     cond_outer = b.icmp_signed("<", i_phi, n)
-    b.cbranch(cond_outer, b_inner, b_exit)
+    b.cbranch(cond_outer, b_inner_init, b_exit)
+
+    b.position_at_end(b_inner_init)
+    j_first = b.add(i_phi, ir.Constant(i32, 1))
+    b.branch(b_inner)
 
     # Inner loop: find min index
     b.position_at_end(b_inner)
-    min_idx = b_phi = b_phi_i = b.phi(i32, name="min_idx")
-    min_idx.add_incoming(i_phi, b_outer)  # initial min_idx = i
+    min_idx = b.phi(i32, name="min_idx")
+    min_idx.add_incoming(i_phi, b_inner_init)  # initial min_idx = i
 
     j_phi = b.phi(i32, name="j")
-    j_phi.add_incoming(b.add(i_phi, ir.Constant(i32, 1)), b_outer)
+    j_phi.add_incoming(j_first, b_inner_init)
 
     cond_inner = b.icmp_signed("<", j_phi, n)
     b.cbranch(cond_inner, b_inner_latch, b_swap)
@@ -239,19 +244,18 @@ def _build_selection_sort_ir(dtype: str) -> str:
     else:
         cmp = b.fcmp_ordered("<", arr_j_val, arr_min_val)
 
-    with b.if_then(cmp):
-        min_idx = j_phi  # update min_idx
+    min_next = b.select(cmp, j_phi, min_idx)  # update min_idx
 
     j_next = b.add(j_phi, ir.Constant(i32, 1))
     j_phi.add_incoming(j_next, b_inner_latch)
-    min_idx.add_incoming(min_idx, b_inner_latch)  # propagate current min_idx
+    min_idx.add_incoming(min_next, b_inner_latch)  # propagate current min_idx
     b.branch(b_inner)
 
     # Swap arr[i] and arr[min_idx]
     b.position_at_end(b_swap)
-    i64 = b.sext(i_phi, i64)
+    idx64 = b.sext(i_phi, i64)
     min64 = b.sext(min_idx, i64)
-    ptr_i = b.gep(arr, [i64], inbounds=True)
+    ptr_i = b.gep(arr, [idx64], inbounds=True)
     ptr_min = b.gep(arr, [min64], inbounds=True)
     val_i = b.load(ptr_i)
     val_min = b.load(ptr_min)
@@ -274,8 +278,8 @@ def _materialize_selection(dtype: str) -> int:
     _ensure_target_machine()
 
     name = f"selection_sort_{dtype}"
-    if dtype in _fn_ptr_cache:
-        return _fn_ptr_cache[dtype]
+    if name in _fn_ptr_cache:
+        return _fn_ptr_cache[name]
 
     try:
         llvm_ir = _build_selection_sort_ir(dtype)
@@ -290,8 +294,8 @@ def _materialize_selection(dtype: str) -> int:
         if not addr:
             raise RuntimeError(f"Failed to get address for {name}")
 
-        _fn_ptr_cache[dtype] = addr
-        _engines[dtype] = engine
+        _fn_ptr_cache[name] = addr
+        _engines[name] = engine
         return addr
     except Exception as e:
         raise RuntimeError(f"Failed to materialize function for dtype {dtype}: {e}")
-- 
2.43.0


From 7f6a5a2780b3ddb7545b282758704c2d394ffe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 028/160] fix: C++ quick_sort must end the argument list it
 passes to pick_pivot_element

---
 .../_backend/cpp/algorithms/quick_sort.hpp                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 5d2e9ab..6b947a5 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -15,7 +15,7 @@ static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
         return PyObject_CallFunctionObjArgs(pick_pivot_element,
                                             PyLong_FromSize_t(low),
                                             high_PyObject,
-                                            array);
+                                            array, NULL);
     }
 
     return PyObject_GetItem(array, high_PyObject);
-- 
2.43.0


From 1b03a93453760866f731050d315d50c4b3825ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 029/160] fix: LLVM bubble_sort of floats must not pass an
 argument llvmlite does not take

---
 .../_backend/cpp/algorithms/llvm_algorithms.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 40c2ae0..332294a 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -107,7 +107,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     if isinstance(T, ir.IntType):
         should_swap = b.icmp_signed(">", val_j, val_jp1)
     else:
-        should_swap = b.fcmp_ordered(">", val_j, val_jp1, fastmath=True)
+        should_swap = b.fcmp_ordered(">", val_j, val_jp1)
 
     b.cbranch(should_swap, b_swap, b_inner_latch)
 
-- 
2.43.0


From a592774957f5b4d161db3f8dafb74fdcbfdf17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 030/160] fix: binary trees must use the comparator they are
 given

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..9741145 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,7 +70,7 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From b53f0872ad5ba8cf9d1ae37b5f231d73b70a27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 031/160] fix: binary trees must link an inserted node where
 the array put it, also after deletions

---
 .../linear_data_structures/arrays.py          |  2 +-
 pydatastructs/trees/binary_trees.py           | 37 ++++++++++++-------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 7dc0de3..e0ee541 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -411,7 +411,7 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self[self._last_pos_filled + 1] = el
         self._last_pos_filled += 1
         self._num += 1
-        self._modify()
+        return self._modify()
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9741145..ccf688b 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -239,6 +239,19 @@ class BinarySearchTree(BinaryTree):
                     self.right_size(self.tree[walk]) + 1)
                 walk = self.tree[walk].parent
 
+    def _append_child(self, parent, side, node):
+        # Links the node as a child before the array gets a chance to
+        # move its elements, returns where the node is afterwards.
+        root_key = self.tree[self.root_idx].key
+        node.parent = parent
+        setattr(self.tree[parent], side, self.tree._last_pos_filled + 1)
+        new_indices = self.tree.append(node)
+        self.size += 1
+        if new_indices is None:
+            return self.tree._last_pos_filled
+        self.root_idx = new_indices[root_key]
+        return new_indices[node.key]
+
     def insert(self, key, data=None):
         res = self.search(key)
         if res is not None:
@@ -249,24 +262,20 @@ class BinarySearchTree(BinaryTree):
             self.tree[walk].key = key
             self.tree[walk].data = data
             return None
-        new_node, prev_node, flag = TreeNode(key, data), self.root_idx, True
+        new_node, flag = TreeNode(key, data), True
         while flag:
             if not self.comparator(key, self.tree[walk].key):
                 if self.tree[walk].right is None:
-                    new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].right = self.size
-                    self.size += 1
+                    walk = self._append_child(walk, 'right', new_node)
                     flag = False
-                prev_node = walk = self.tree[walk].right
+                else:
+                    walk = self.tree[walk].right
             else:
                 if self.tree[walk].left is None:
-                    new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].left = self.size
-                    self.size += 1
+                    walk = self._append_child(walk, 'left', new_node)
                     flag = False
-                prev_node = walk = self.tree[walk].left
+                else:
+                    walk = self.tree[walk].left
         self._update_size(walk)
 
     def search(self, key, **kwargs):
@@ -1030,7 +1039,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
     def insert(self, key, data=None):
         super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        node_idx = self.search(key)
+        self._balance_insertion(node_idx, self.tree[node_idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
@@ -1125,7 +1135,6 @@ class SplayTree(SelfBalancingBinaryTree):
     def insert(self, key, x):
         super(SelfBalancingBinaryTree, self).insert(key, x)
         e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
         self.splay(e, p)
 
     def delete(self, x):
@@ -1666,7 +1675,7 @@ class BinaryTreeTraversal(object):
         tree, size = self.tree.tree, self.tree.size
         s = Stack()
         s.push(node)
-        last = OneDimensionalArray(int, size)
+        last = OneDimensionalArray(int, len(tree))
         last.fill(False)
         while not s.is_empty:
             node = s.peek
-- 
2.43.0


From 248c12681cae349ac307b9e09855e3ea25cfc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 032/160] fix: deleting from an empty binary search tree must
 return None

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index ccf688b..bedc831 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -283,7 +283,7 @@ class BinarySearchTree(BinaryTree):
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
-- 
2.43.0


From ee18975a0db95db635be1254af7ff2bb9dd97f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 033/160] fix: deleting a root with one child must relink and
 resize what is below it

---
 pydatastructs/trees/binary_trees.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index bedc831..4fdff3b 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -448,10 +448,15 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                for idx in (self.tree[child].left, self.tree[child].right):
+                    if idx is not None:
+                        self.tree[idx].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
                     self.root_idx = new_indices[root_key]
+                a = self.root_idx
+                self._update_size(a)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
-- 
2.43.0


From 05afc056e8ca889474f2d3ff65ed91d7df05aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 034/160] fix: deleting a node with one child must not use its
 child's index from before compaction

---
 pydatastructs/trees/binary_trees.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 4fdff3b..d6fb6b4 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -469,7 +469,6 @@ class BinarySearchTree(BinaryTree):
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
                     parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
                     self.root_idx = new_indices[root_key]
                 self._update_size(a)
-- 
2.43.0


From c07fb923e95ff8aba34e953ca8d7ad6dbe58aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 035/160] fix: lowest_common_ancestor must work wherever the
 root is stored and for the root itself

---
 pydatastructs/trees/binary_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index d6fb6b4..d7e035c 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -579,18 +579,18 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx != root:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
+        path.append(root)
         path.reverse()
 
         return path
@@ -620,6 +620,9 @@ class BinarySearchTree(BinaryTree):
         if (u is None) or (v is None):
             raise ValueError("One of the nodes with key %s "
                              "or %s doesn't exits"%(j, k))
+        if curr_root == u or curr_root == v:
+            return self.tree[curr_root].key
+
         u_left = self.comparator(self.tree[u].key, \
             self.tree[curr_root].key)
         v_left = self.comparator(self.tree[v].key, \
-- 
2.43.0


From b68fcd51509834b9993a08da046dc0d9dcacbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 036/160] fix: AVLTree.delete must return None for an absent
 key

---
 pydatastructs/trees/binary_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index d7e035c..e4e12ba 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1074,6 +1074,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
-- 
2.43.0


From 37a2930cf31c60911e68577b4abb96d100b4d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 037/160] fix: select must raise on an empty tree

---
 pydatastructs/trees/binary_trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index e4e12ba..99e6ab9 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -501,9 +501,10 @@ class BinarySearchTree(BinaryTree):
         i -= 1 # The algorithm is based on zero indexing
         if i < 0:
             raise ValueError("Expected a positive integer, got %d"%(i + 1))
-        if i >= self.tree._num:
+        num = 0 if self.tree[self.root_idx].key is None else self.tree._num
+        if i >= num:
             raise ValueError("%d is greater than the size of the "
-                "tree which is, %d"%(i + 1, self.tree._num))
+                "tree which is, %d"%(i + 1, num))
         walk = self.root_idx
         while walk is not None:
             l = self.left_size(self.tree[walk])
-- 
2.43.0


From 713aff26f2cebfd60f87abb6c65e748bcc144d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 038/160] fix: rotations must keep subtree sizes and the root
 mark of self-balancing trees

---
 pydatastructs/trees/binary_trees.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 99e6ab9..fcab260 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -708,6 +708,18 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             return _trees.SelfBalancingBinaryTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
         return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
 
+    def _set_root(self, old, new):
+        self.tree[old].is_root = False
+        self.tree[new].is_root = True
+        self.root_idx = new
+
+    def _resize(self, *indices):
+        if self.is_order_statistic:
+            for idx in indices:
+                self.tree[idx].size = (
+                    self.left_size(self.tree[idx]) +
+                    self.right_size(self.tree[idx]) + 1)
+
     def _right_rotate(self, j, k):
         y = self.tree[k].right
         if y is not None:
@@ -723,7 +735,8 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         self.tree[k].right = j
         kp = self.tree[k].parent
         if kp is None:
-            self.root_idx = k
+            self._set_root(j, k)
+        self._resize(j, k)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -743,7 +756,8 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             else:
                 self.tree[ip].right = i
         else:
-            self.root_idx = i
+            self._set_root(j, i)
+        self._resize(j, k, i)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -763,7 +777,8 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             else:
                 self.tree[ip].right = i
         else:
-            self.root_idx = i
+            self._set_root(j, i)
+        self._resize(j, k, i)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -780,7 +795,8 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         self.tree[k].left = j
         kp = self.tree[k].parent
         if kp is None:
-            self.root_idx = k
+            self._set_root(j, k)
+        self._resize(j, k)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
@@ -869,6 +885,7 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
@@ -1346,6 +1363,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
-- 
2.43.0


From 1ced8d95f04b54c11391c53bd061ef8e076b7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 039/160] fix: CartesianTree must restore the heap order when a
 key is inserted again

---
 pydatastructs/trees/binary_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index fcab260..c3f7249 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -878,6 +878,8 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
+        if super(CartesianTree, self).search(key) is not None:
+            CartesianTree.delete(self, key)
         super(CartesianTree, self).insert(key, data)
         node_idx = super(CartesianTree, self).search(key)
         node = self.tree[node_idx]
-- 
2.43.0


From 1df5a9684634219d2b11ba604d6284858528b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 040/160] fix: RedBlackTree must keep a node's colour when its
 key is inserted again

---
 pydatastructs/trees/binary_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index c3f7249..a81e561 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1358,7 +1358,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
+        is_new = super(RedBlackTree, self).search(key) is None
         super(RedBlackTree, self).insert(key, data)
+        if not is_new:
+            return None
         node_idx = super(RedBlackTree, self).search(key)
         node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
-- 
2.43.0


From 1c6f400cf9a4d7be4d61ee348772899285df4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 041/160] fix: RedBlackTree.delete must survive the array
 compacting below a node with one child

---
 pydatastructs/trees/binary_trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index a81e561..1e833d8 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1528,6 +1528,9 @@ class RedBlackTree(SelfBalancingBinaryTree):
             parent = self._get_parent(node_idx)
             par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
+            if new_indices is not None:
+                a = new_indices[par_key]
+                self.root_idx = new_indices[root_key]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1539,6 +1542,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
                 self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
@@ -1573,11 +1577,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
-            a = self._remove_node(walk)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
                 self.tree[walk1].color = 0
+            self._remove_node(walk)
 
     def __two_child_case(self, node_idx):
         walk = node_idx
-- 
2.43.0


From efa2ef52a35bf9a70d829d3d4e57387c8cd984cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 042/160] fix: SplayTree.join must link the joined nodes to
 their parents, wherever the array puts them

---
 pydatastructs/trees/binary_trees.py | 33 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 1e833d8..6801555 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1186,6 +1186,12 @@ class SplayTree(SelfBalancingBinaryTree):
             SplayTree which needs to be joined with the self tree.
 
         """
+        if other.tree[other.root_idx].key is None:
+            return None
+        if self.tree[self.root_idx].key is None:
+            for node in BinaryTreeTraversal(other).depth_first_search(order='pre_order'):
+                super(SelfBalancingBinaryTree, self).insert(node.key, node.data)
+            return None
         maxm = self.root_idx
         while self.tree[maxm].right is not None:
             maxm = self.tree[maxm].right
@@ -1197,19 +1203,30 @@ class SplayTree(SelfBalancingBinaryTree):
             raise ValueError("Elements of %s aren't less "
                              "than that of %s"%(self, other))
         self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
+        root_key = self.tree[self.root_idx].key
         for node in other.tree:
             if node is not None:
-                node_copy = TreeNode(node.key, node.data)
-                if node.left is not None:
-                    node_copy.left = node.left + idx_update
-                if node.right is not None:
-                    node_copy.right = node.right + idx_update
-                self.tree.append(node_copy)
+                self.tree.append(TreeNode(node.key, node.data))
+                self.size += 1
             else:
                 self.tree.append(node)
+                self.tree._num -= 1
+        indices = {node.key: idx for idx, node in enumerate(self.tree)
+                   if node is not None}
+        self.root_idx = indices[root_key]
+        for node in other.tree:
+            if node is not None:
+                node_copy = self.tree[indices[node.key]]
+                node_copy.size = node.size
+                if node.left is not None:
+                    node_copy.left = indices[other.tree[node.left].key]
+                if node.right is not None:
+                    node_copy.right = indices[other.tree[node.right].key]
+                node_copy.parent = self.root_idx if node.parent is None \
+                    else indices[other.tree[node.parent].key]
         self.tree[self.root_idx].right = \
-            other.root_idx + idx_update
+            indices[other.tree[other.root_idx].key]
+        self._update_size(self.root_idx)
 
     def split(self, x):
         """
-- 
2.43.0


From 36e9d346ef96e88f0c125248191daee081709eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 043/160] fix: SplayTree.split must delete the nodes it moves
 and pass on the comparator

---
 pydatastructs/trees/binary_trees.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 6801555..94622ac 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1251,16 +1251,14 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, self.comparator, self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
             for i in range(len(elements)):
                 super(SelfBalancingBinaryTree, other).insert(elements[i].key, elements[i].data)
             for j in range(len(elements) - 1, -1, -1):
-                e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
-                self.tree[e] = None
-            self.tree[self.root_idx].right = None
+                super(SelfBalancingBinaryTree, self).delete(elements[j].key)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
-- 
2.43.0


From 5284100f75bd03365002c1299ef47c283d66b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 044/160] fix: a treap or red-black tree made with a root must
 give it a priority or colour

---
 pydatastructs/trees/binary_trees.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 94622ac..4499ccd 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -946,7 +946,12 @@ class Treap(CartesianTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        if root.key is not None:
+            obj.tree[obj.root_idx] = CartesianTreeNode(root.key, random.random(), root.data)
+            obj.tree[obj.root_idx].is_root = True
+        return obj
 
     @classmethod
     def methods(cls):
@@ -1296,7 +1301,13 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        if root.key is not None:
+            obj.tree[obj.root_idx] = RedBlackTreeNode(root.key, root.data)
+            obj.tree[obj.root_idx].is_root = True
+            obj.tree[obj.root_idx].color = 0
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From 014a9eec508d0881d3a6e1497d753e79bafd6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 045/160] fix: OneDimensionalSegmentTree must accept tuples and
 sets and leave the caller's segments alone

---
 pydatastructs/trees/space_partitioning_trees.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..382775b 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
-- 
2.43.0


From 8f758b0f5d0b4886781709eb62aa87d112d458b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 046/160] fix: BinaryIndexedTree.update must reject an index
 out of range

---
 pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp | 7 +++++++
 pydatastructs/trees/binary_trees.py                    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 39957fa..c00edec 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -27,6 +27,13 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    if (index < 0 || index >= static_cast<long>(self->array->_size)) {
+        PyErr_Format(PyExc_IndexError, "Index %ld is out of bounds.", index);
+        return NULL;
+    }
     long _index = index;
     long _value = value;
     if (PyList_GetItem(self->flag, index) == PyZero) {
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 4499ccd..596c963 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1896,6 +1896,8 @@ class BinaryIndexedTree(object):
         value
             The value to be inserted.
         """
+        if not 0 <= index < self.array._size:
+            raise IndexError("Index %s is out of bounds."%(index))
         _index, _value = index, value
         if self.flag[index] == 0:
             self.flag[index] = 1
-- 
2.43.0


From 2f25cab876969cf1daa074b35107e5209c037a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 047/160] fix: OneDimensionalArray must accept a tuple together
 with its size

---
 pydatastructs/linear_data_structures/arrays.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index e0ee541..146666f 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -88,10 +88,10 @@ class OneDimensionalArray(Array):
         obj = Array.__new__(cls)
         obj._dtype = dtype
         if len(args) == 2:
-            if _check_type(args[0], list) and \
+            if _check_type(args[0], (list, tuple)) and \
                 _check_type(args[1], int):
                 size, data = args[1], cls._convert(args[0], dtype)
-            elif _check_type(args[1], list) and \
+            elif _check_type(args[1], (list, tuple)) and \
                 _check_type(args[0], int):
                 size, data = args[0], cls._convert(args[1], dtype)
             else:
-- 
2.43.0


From a06f0ca97ddc2f356ba0d31e967508afb18c1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 048/160] fix: DHeap must not take the unfilled positions of an
 array for nodes

---
 pydatastructs/trees/heaps.py | 1167 +++++++++++++++++-----------------
 1 file changed, 585 insertions(+), 582 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 12133a6..5e8f694 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,582 +1,585 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = [node for node in elements._data if node is not None]
+            if not all(_check_type(node, TreeNode) for node in elements):
+                raise TypeError("Expected an Array of TreeNode.")
+            elements = DynamicOneDimensionalArray(TreeNode, elements)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = root_list
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From f38cd53c378064f82476cc22c0e1735657f3c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 049/160] fix: BinomialHeap.delete must delete nodes with keys
 that are not plain numbers

---
 pydatastructs/trees/heaps.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 5e8f694..73982d8 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -533,12 +533,20 @@ class BinomialHeap(Heap):
         """
         Deletes the node with minimum key.
         """
-        min_node, min_idx = self.find_minimum(get_index=True)
+        _, min_idx = self.find_minimum(get_index=True)
+        self._delete_root(min_idx)
+
+    def _delete_root(self, idx):
+        """
+        Deletes the root of the tree at the given index of
+        the root list.
+        """
+        min_node = self.root_list[idx].root
         child_root_list = []
         for k, child in enumerate(min_node.children):
             if child is not None:
                 child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
+        self.root_list.remove(self.root_list[idx])
         child_heap = BinomialHeap(root_list=child_root_list)
         self.merge(child_heap)
 
@@ -581,5 +589,13 @@ class BinomialHeap(Heap):
         node: BinomialTreeNode
             The node which is to be deleted.
         """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+        while not node.is_root:
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+        for idx, tree in enumerate(self.root_list):
+            if tree.root is node:
+                self._delete_root(idx)
+                break
-- 
2.43.0


From 7fce5f3da804ad2cf0f173c016eb8b0f0a15417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 050/160] fix: DisjointSetForest must raise KeyError for an
 absent tuple key

---
 pydatastructs/miscellaneous_data_structures/disjoint_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/disjoint_set.py b/pydatastructs/miscellaneous_data_structures/disjoint_set.py
index 9a5caef..8fd3364 100644
--- a/pydatastructs/miscellaneous_data_structures/disjoint_set.py
+++ b/pydatastructs/miscellaneous_data_structures/disjoint_set.py
@@ -68,7 +68,7 @@ class DisjointSetForest(object):
         splitting algorithm.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
         _set = self.tree[key]
         while _set.parent is not _set:
             _set, _set.parent = _set.parent, _set.parent.parent
@@ -96,7 +96,7 @@ class DisjointSetForest(object):
         and makes it as the root of the set.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
 
         key_set = self.tree[key]
         if key_set.parent is not key_set:
@@ -121,7 +121,7 @@ class DisjointSetForest(object):
         Finds the size of set to which the key belongs.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
 
         return self.find_root(key).size
 
-- 
2.43.0


From 1fc17f36052f405721308e5e93ac671d3daecc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 051/160] fix: ArrayQueue must find its ends where the array
 moves them and start from no items

---
 .../miscellaneous_data_structures/queue.py    | 46 ++++++++-----------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..c50e60c 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -111,7 +111,7 @@ class ArrayQueue(Queue):
                 **kwargs):
         raise_if_backend_is_not_python(
             cls, kwargs.get('backend', Backend.PYTHON))
-        if items is None:
+        if not items:
             items = DynamicOneDimensionalArray(dtype, 0)
         else:
             dtype = type(items[0])
@@ -133,12 +133,22 @@ class ArrayQueue(Queue):
                 'pop', 'is_empty', '__len__', '__str__', 'front',
                 'rear']
 
+    def _set_ends(self):
+        """
+        Sets front and rear according to where the array,
+        which moves its elements when it contracts, holds them.
+        """
+        if self.is_empty:
+            self._front, self._rear = -1, -1
+        else:
+            self._rear = self.items._last_pos_filled
+            self._front = self._rear - self.items._num + 1
+
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._set_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
@@ -151,23 +161,14 @@ class ArrayQueue(Queue):
         for i in range(self._front, self._rear + 1):
             temp.append(self.items._data[i])
         self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self._set_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = dc(self.items[self._front])
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._set_ends()
         return return_value
 
     def pop(self):
@@ -176,17 +177,8 @@ class ArrayQueue(Queue):
             raise IndexError("Queue is empty.")
 
         return_value = dc(self.items[self._rear])
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._set_ends()
         return return_value
 
     @property
@@ -206,7 +198,7 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
-        for i in range(self._front, self._rear + 1):
+        for i in range(max(self._front, 0), self._rear + 1):
             _data.append(self.items._data[i])
         return str(_data)
 
-- 
2.43.0


From 928a0120563f59f132ee5ac880d2fe572d25d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 052/160] fix: AdjacencyList.remove_vertex must drop the
 weights of the edges it removes

---
 pydatastructs/graphs/adjacency_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..0f758e3 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -66,6 +66,9 @@ class AdjacencyList(Graph):
             if hasattr(node_obj, name):
                 delattr(node_obj, name)
                 node_obj.adjacent.remove(name)
+        for edge, edge_node in list(self.edge_weights.items()):
+            if name in (edge_node.source.name, edge_node.target.name):
+                self.edge_weights.pop(edge)
 
     def add_edge(self, source, target, cost=None):
         source, target = str(source), str(target)
-- 
2.43.0


From 2570193f6fdb4c4b9001ea4fd9d3e729a7bd539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 053/160] fix: AdjacencyMatrix.num_edges must not count removed
 edges

---
 pydatastructs/graphs/adjacency_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..3829d3a 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -48,7 +48,8 @@ class AdjacencyMatrix(Graph):
         return len(self.vertices)
 
     def num_edges(self):
-        return sum(len(v) for v in self.matrix.values())
+        return sum(presence is not False for v in self.matrix.values()
+                   for presence in v.values())
 
     def neighbors(self, node):
         node = str(node)
-- 
2.43.0


From 05530badd16a7189adbf2fd76383c4f382400a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 054/160] fix: C++ AdjacencyMatrixGraph.get_edge must return a
 reference of its own

---
 pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 7bd89d5..6ce9925 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -202,6 +202,7 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     std::string key = std::string(source) + "_" + std::string(target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
+        Py_INCREF(it->second);
         return reinterpret_cast<PyObject*>(it->second);
     }
     Py_RETURN_NONE;
-- 
2.43.0


From 1cf93a21815c410753fef95c295106d8c9a43036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 055/160] fix: C++ AdjacencyListGraph.remove_vertex must find
 the edges of names with underscores

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index ffbb6f4..1ece672 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -220,10 +220,8 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
     }
 
     for (auto it = self->edges.begin(); it != self->edges.end(); ) {
-        const std::string& key = it->first;
-        size_t underscore = key.find('_');
-        std::string src = key.substr(0, underscore);
-        std::string dst = key.substr(underscore + 1);
+        std::string src = reinterpret_cast<AdjacencyListGraphNode*>(it->second->source)->name;
+        std::string dst = reinterpret_cast<AdjacencyListGraphNode*>(it->second->target)->name;
 
         if (src == name || dst == name) {
             Py_XDECREF(it->second);
-- 
2.43.0


From 818dc7654e07fae895a599cd98773c37dddf496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 056/160] fix: AdjacencyListGraphNode must keep the names of
 the adjacency list it is given

---
 pydatastructs/utils/misc_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydatastructs/utils/misc_util.py b/pydatastructs/utils/misc_util.py
index 529fc58..1162013 100644
--- a/pydatastructs/utils/misc_util.py
+++ b/pydatastructs/utils/misc_util.py
@@ -408,8 +408,7 @@ class AdjacencyListGraphNode(GraphNode):
             if len(adjacency_list) > 0:
                 for node in adjacency_list:
                     obj.__setattr__(node.name, node)
-            obj.adjacent = adjacency_list if len(adjacency_list) > 0 \
-                        else []
+            obj.adjacent = [node.name for node in adjacency_list]
             return obj
         else:
             from pydatastructs.graphs._backend.cpp import _graph
-- 
2.43.0


From bbe3adc8ec43cdb8e7f6b4a08e4be557b896a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 057/160] fix: graph searches must not pass their backend on to
 the operation

---
 pydatastructs/graphs/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..c459f10 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -81,7 +81,7 @@ def breadth_first_search(
     >>> G.add_edge(V2.name, V3.name)
     >>> breadth_first_search(G, V1.name, f, V3.name)
     """
-    backend = kwargs.get('backend', Backend.PYTHON)
+    backend = kwargs.pop('backend', Backend.PYTHON)
     if backend == Backend.PYTHON:
         import pydatastructs.graphs.algorithms as algorithms
         func = "_breadth_first_search_" + graph._impl
@@ -178,7 +178,7 @@ def breadth_first_search_parallel(
     >>> breadth_first_search_parallel(G, V1.name, 3, f, V3.name)
     """
     raise_if_backend_is_not_python(
-        breadth_first_search_parallel, kwargs.get('backend', Backend.PYTHON))
+        breadth_first_search_parallel, kwargs.pop('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_breadth_first_search_parallel_" + graph._impl
     if not hasattr(algorithms, func):
@@ -709,7 +709,7 @@ def depth_first_search(
     .. [1] https://en.wikipedia.org/wiki/Depth-first_search
     """
     raise_if_backend_is_not_python(
-        depth_first_search, kwargs.get('backend', Backend.PYTHON))
+        depth_first_search, kwargs.pop('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_depth_first_search_" + graph._impl
     if not hasattr(algorithms, func):
-- 
2.43.0


From ac79cb35a8bd12757de50398e473a9bbbf6ae418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 058/160] fix: breadth_first_search_parallel must not visit a
 vertex again

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index c459f10..e3ea980 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,7 +196,7 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
                 next_layer.add(next_node.name)
                 visited[next_node.name] = True
-- 
2.43.0


From 471aa25459c66c3fbedb5fb693b322c39bd0f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 059/160] fix: breadth_first_search_parallel must stop
 whichever vertex the operation refuses

---
 pydatastructs/graphs/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index e3ea980..424e62f 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -219,9 +219,9 @@ def _breadth_first_search_parallel_adjacency_list(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
                           operation, *args), kwargs=kwargs).result()
+                if not status:
+                    return None
         layer += 1
-        if not status:
-            return None
 
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
-- 
2.43.0


From 68ff68bd1866d107d7a4eca2d06e0f99b5146111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 060/160] fix: C++ breadth_first_search must stop when the
 operation refuses

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 2bb362c..4669722 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -70,7 +70,12 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
             if (!result)
                 return nullptr;
 
+            int status = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (status < 0)
+                return nullptr;
+            if (!status)
+                Py_RETURN_NONE;
             visited.insert(adj_name);
             q.push(adj_node);
         }
@@ -145,7 +150,10 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
             PyObject* result = PyObject_Call(operation, final_args, kwargs_dict);
             Py_DECREF(final_args);
             if (!result) return nullptr;
+            int status = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (status < 0) return nullptr;
+            if (!status) Py_RETURN_NONE;
 
             visited.insert(adj_name);
             q.push(adj_node);
-- 
2.43.0


From 6dbac4f6493a68e0803fee1a6acabba931dd2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 061/160] fix: C++ breadth_first_search of an absent source
 must raise KeyError

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 4669722..c3a33dc 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -25,6 +25,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
 
     AdjacencyListGraph* cpp_graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
     auto it = cpp_graph->node_map.find(source_name);
+    if (it == cpp_graph->node_map.end()) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
-- 
2.43.0


From 64e8031c43c8c3a9cbb4414ccd6467cdfdb2c094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 062/160] fix: a minimum spanning tree must have its own edges,
 not those of the graph

---
 pydatastructs/graphs/algorithms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 424e62f..ec0d7f4 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -226,7 +226,10 @@ def _breadth_first_search_parallel_adjacency_list(
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    nodes = [getattr(graph, str(v)) for v in graph.vertices]
+    # the nodes of the graph hold its edges, so the tree needs nodes of its own
+    mst = Graph(*[type(node)(node.name, node.data) for node in nodes],
+                implementation=graph._impl)
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -263,10 +266,10 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            # the nodes of the graph hold its edges, so the tree needs nodes of its own
+            mst.add_vertex(AdjacencyListGraphNode(v, graph.__getattribute__(v).data))
             if e.get(v, None) is not None:
                 edge = e[v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
@@ -405,10 +408,10 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            # the nodes of the graph hold its edges, so the tree needs nodes of its own
+            mst.add_vertex(AdjacencyListGraphNode(v, graph.__getattribute__(v).data))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
-- 
2.43.0


From 5c40f80f4fd0142a5a75909d01ba21ca53ca3a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 063/160] fix: C++ prim must compare integral and fractional
 costs by value

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index c3a33dc..54d8a44 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -189,6 +189,10 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         DataType value_type;
 
         bool operator>(const EdgeTuple& other) const {
+            const bool numbers = (value_type == DataType::Int || value_type == DataType::Double) &&
+                                 (other.value_type == DataType::Int || other.value_type == DataType::Double);
+            if (numbers && value_type != other.value_type)
+                return number() > other.number();
             if (value_type != other.value_type)
                 return value_type > other.value_type;
             if (std::holds_alternative<int64_t>(value))
@@ -199,6 +203,12 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
                 return std::get<std::string>(value) > std::get<std::string>(other.value);
             return false;
         }
+
+        long double number() const {
+            if (std::holds_alternative<int64_t>(value))
+                return static_cast<long double>(std::get<int64_t>(value));
+            return static_cast<long double>(std::get<double>(value));
+        }
     };
 
     std::priority_queue<EdgeTuple, std::vector<EdgeTuple>, std::greater<>> pq;
-- 
2.43.0


From dda9e00c559d01c141a25ebb0cf8afd275ebc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 064/160] fix: C++ prim must give the tree nodes and edges of
 its own

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 50 +++++++++++++------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 54d8a44..da3bf15 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -217,18 +217,43 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
     PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
     AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
 
-    int start_id = graph->nodes[0]->internal_id;
+    if (!mst_graph)
+        return nullptr;
+    if (graph->nodes.empty())
+        return mst_graph;
+    mst->next_id = graph->next_id;
+
+    // the nodes of the graph hold its edges, so the tree needs nodes of its own
+    auto add_tree_node = [graph, mst](int id, const std::string& name) -> bool {
+        PyObject* node_obj = PyObject_CallFunction(
+            reinterpret_cast<PyObject*>(&AdjacencyListGraphNodeType), "s", name.c_str());
+        if (!node_obj)
+            return false;
+        AdjacencyListGraphNode* node = reinterpret_cast<AdjacencyListGraphNode*>(node_obj);
+        AdjacencyListGraphNode* original = graph->id_map[id];
+        node->data_type = original->data_type;
+        node->data = original->data;
+        if (node->data_type == DataType::PyObject)
+            Py_XINCREF(std::get<PyObject*>(node->data));
+        node->internal_id = id;
+        mst->nodes.push_back(node);
+        mst->node_map[name] = node;
+        mst->id_map[id] = node;
+        mst->id_to_name[id] = name;
+        mst->name_to_id[name] = id;
+        return true;
+    };
+
+    int start_id = graph->name_to_id[graph->nodes[0]->name];
     visited.insert(start_id);
 
     AdjacencyListGraphNode* start_node = graph->id_map[start_id];
     std::string start_name = graph->id_to_name[start_id];
 
-    Py_INCREF(start_node);
-    mst->nodes.push_back(start_node);
-    mst->node_map[start_name] = start_node;
-    mst->id_map[start_id] = start_node;
-    mst->id_to_name[start_id] = start_name;
-    mst->name_to_id[start_name] = start_id;
+    if (!add_tree_node(start_id, start_name)) {
+        Py_DECREF(mst_graph);
+        return nullptr;
+    }
 
     for (const auto& [adj_name, _] : start_node->adjacent) {
         int adj_id = graph->name_to_id[adj_name];
@@ -270,14 +295,9 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         std::string v_name = graph->id_to_name[v_id];
 
         for (auto [id, name] : std::vector<std::pair<int, std::string>>{{u_id, u_name}, {v_id, v_name}}) {
-            if (!mst->id_map.count(id)) {
-                AdjacencyListGraphNode* node = graph->id_map[id];
-                Py_INCREF(node);
-                mst->nodes.push_back(node);
-                mst->node_map[name] = node;
-                mst->id_map[id] = node;
-                mst->id_to_name[id] = name;
-                mst->name_to_id[name] = id;
+            if (!mst->id_map.count(id) && !add_tree_node(id, name)) {
+                Py_DECREF(mst_graph);
+                return nullptr;
             }
         }
 
-- 
2.43.0


From c1a04c3910c4076ea63aafb22f3419beda530d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 065/160] fix: kosaraju must accept vertices with no edges
 coming in

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index ec0d7f4..c27ee0e 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -520,7 +520,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, []):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From 3adaa0d6f5519d03b27efd3980021d8df18cb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 066/160] fix: kosaraju must order each vertex once, by when it
 was finished first

---
 pydatastructs/graphs/algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index c27ee0e..6a6fd0d 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -499,7 +499,7 @@ def minimum_spanning_tree_parallel(graph, algorithm, num_threads, **kwargs):
     return getattr(algorithms, func)(graph, num_threads)
 
 def _visit(graph, vertex, visited, incoming, L):
-    stack = [vertex]
+    stack, finished = [vertex], set()
     while stack:
         top = stack[-1]
         if not visited.get(top, False):
@@ -511,7 +511,11 @@ def _visit(graph, vertex, visited, incoming, L):
                 if not visited.get(node.name, False):
                     stack.append(node.name)
         if top is stack[-1]:
-            L.append(stack.pop())
+            stack.pop()
+            # a vertex reached from several others is on the stack several times
+            if top not in finished:
+                finished.add(top)
+                L.append(top)
 
 def _assign(graph, u, incoming, assigned, component):
     stack = [u]
-- 
2.43.0


From f14a3c48cb4ab258fc8cc5a24b729e153787f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 067/160] fix: dijkstra must reach every vertex, however often
 one was pushed

---
 pydatastructs/graphs/algorithms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6a6fd0d..a0fcce5 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -862,7 +862,6 @@ def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tupl
 _bellman_ford_adjacency_matrix = _bellman_ford_adjacency_list
 
 def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
-    V = len(graph.vertices)
     visited, dist, pred = {}, {}, {}
     for v in graph.vertices:
         visited[v] = False
@@ -873,8 +872,11 @@ def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
     pq = PriorityQueue(implementation='binomial_heap')
     for vertex in dist:
         pq.push(vertex, dist[vertex])
-    for _ in range(V):
+    while not pq.is_empty:
         u = pq.pop()
+        if visited[u]:
+            # a vertex is pushed again whenever a shorter path to it is found
+            continue
         visited[u] = True
         for v in graph.vertices:
             edge_str = u + '_' + v
-- 
2.43.0


From a24ddca7ac7cbf57d069a7a8e7290fc2fefadc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 068/160] fix: C++ dijkstra must cope with any names, removed
 vertices and absent ones

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index da3bf15..6204a51 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -378,15 +378,24 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     AdjacencyListGraph* graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
-    const size_t V = graph->node_map.size();
+    auto source_it = graph->name_to_id.find(source_name);
+    if (source_it == graph->name_to_id.end()) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
+    auto target_it = graph->name_to_id.find(target_name);
+    if (strlen(target_name) > 0 && target_it == graph->name_to_id.end()) {
+        PyErr_SetString(PyExc_KeyError, "Target node not found in graph");
+        return nullptr;
+    }
+
+    // ids of removed vertices are not used again, so there may be more ids than vertices
+    const size_t V = static_cast<size_t>(graph->next_id);
 
     std::vector<std::vector<std::pair<int, double>>> adj(V);
     for (const auto& [edge_key, edge] : graph->edges) {
-        size_t delim = edge_key.find('_');
-        std::string u_name = edge_key.substr(0, delim);
-        std::string v_name = edge_key.substr(delim + 1);
-        int u = graph->name_to_id[u_name];
-        int v = graph->name_to_id[v_name];
+        int u = graph->name_to_id[reinterpret_cast<AdjacencyListGraphNode*>(edge->source)->name];
+        int v = graph->name_to_id[reinterpret_cast<AdjacencyListGraphNode*>(edge->target)->name];
 
         double weight = 0.0;
         if (edge->value_type == DataType::Int)
@@ -405,7 +414,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     using PQEntry = std::pair<double, int>;
     std::priority_queue<PQEntry, std::vector<PQEntry>, std::greater<>> pq;
 
-    int source_id = graph->name_to_id[source_name];
+    int source_id = source_it->second;
     dist[source_id] = 0.0;
     pq.push({0.0, source_id});
 
@@ -429,6 +438,8 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     if (!dist_dict || !pred_dict) return nullptr;
 
     for (int id = 0; id < static_cast<int>(V); ++id) {
+        if (!graph->id_map.count(id))
+            continue;
         const std::string& name = graph->id_to_name[id];
         PyObject* dval = PyFloat_FromDouble(dist[id]);
         if (!dval || PyDict_SetItemString(dist_dict, name.c_str(), dval) < 0) {
@@ -441,6 +452,8 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     for (int id = 0; id < static_cast<int>(V); ++id) {
+        if (!graph->id_map.count(id))
+            continue;
         const std::string& name = graph->id_to_name[id];
         PyObject* py_pred;
         if (pred[id] == -1) {
@@ -466,7 +479,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     if (strlen(target_name) > 0) {
-        int target_id = graph->name_to_id[target_name];
+        int target_id = target_it->second;
         PyObject* out = PyTuple_New(2);
         if (!out) {
             Py_DECREF(dist_dict);
-- 
2.43.0


From eda08099bfdd2b97aa7144fe4045d6445052bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 069/160] fix: johnson must leave the graph as it was, also
 when it refuses it

---
 pydatastructs/graphs/algorithms.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index a0fcce5..1bdb092 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -991,21 +991,24 @@ def _johnson_adjacency_list(graph: Graph):
         if vertex != '__q__':
             graph.add_edge('__q__', vertex, 0)
 
-    distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
-
-    edges_to_remove = []
-    for edge in graph.edge_weights:
-        edge_node = graph.edge_weights[edge]
-        if edge_node.source.name == '__q__':
-            edges_to_remove.append((edge_node.source.name, edge_node.target.name))
-
-    for u, v in edges_to_remove:
-        graph.remove_edge(u, v)
-    graph.remove_vertex('__q__')
-
+    try:
+        distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
+    finally:
+        edges_to_remove = []
+        for edge in graph.edge_weights:
+            edge_node = graph.edge_weights[edge]
+            if edge_node.source.name == '__q__':
+                edges_to_remove.append((edge_node.source.name, edge_node.target.name))
+
+        for u, v in edges_to_remove:
+            graph.remove_edge(u, v)
+        graph.remove_vertex('__q__')
+
+    values = {}
     for edge in graph.edge_weights:
         edge_node = graph.edge_weights[edge]
         u, v = edge_node.source.name, edge_node.target.name
+        values[edge] = edge_node.value
         graph.edge_weights[edge].value += (distances[u] - distances[v])
 
     all_distances = {}
@@ -1026,6 +1029,9 @@ def _johnson_adjacency_list(graph: Graph):
             else:
                 all_distances[u][v] = float('inf')
 
+    for edge in values:
+        graph.edge_weights[edge].value = values[edge]
+
     return (all_distances, all_next_vertex)
 
 def topological_sort(graph: Graph, algorithm: str,
-- 
2.43.0


From 091b2da64d89c45887eec3597d77862f148d5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 070/160] fix: topological_sort must leave the edges of the
 graph in place

---
 pydatastructs/graphs/algorithms.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 1bdb092..f22b749 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1102,7 +1102,6 @@ def _kahn_adjacency_list(graph: Graph) -> list:
         n = S.popleft()
         L.append(n)
         for m in graph.neighbors(n):
-            graph.remove_edge(n, m.name)
             in_degree[m.name] -= 1
             if in_degree[m.name] == 0:
                 S.append(m.name)
-- 
2.43.0


From 246eb50f7e9581cf19cd8e564b41b77d54712162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 071/160] fix: topological_sort_parallel must leave the graph
 in place

---
 pydatastructs/graphs/algorithms.py | 36 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index f22b749..204940f 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1168,32 +1168,26 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
 
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     num_vertices = len(graph.vertices)
-
-    def _collect_source_nodes(graph: Graph) -> list:
-        S = []
-        in_degree = {u: 0 for u in graph.vertices}
-        for u in graph.vertices:
-            for v in graph.neighbors(u):
-                in_degree[v.name] += 1
-        for u in in_degree:
-            if in_degree[u] == 0:
-                S.append(u)
-        return list(S)
-
-    def _job(graph: Graph, u: str):
+    in_degree = {u: 0 for u in graph.vertices}
+    for u in graph.vertices:
         for v in graph.neighbors(u):
-            graph.remove_edge(u, v.name)
+            in_degree[v.name] += 1
+
+    def _job(graph: Graph, u: str) -> list:
+        return [v.name for v in graph.neighbors(u)]
 
     L = []
-    source_nodes = _collect_source_nodes(graph)
+    source_nodes = [u for u in in_degree if in_degree[u] == 0]
     while source_nodes:
+        L.extend(source_nodes)
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
-            for node in source_nodes:
-                L.append(node)
-                Executor.submit(_job, graph, node)
-        for node in source_nodes:
-            graph.remove_vertex(node)
-        source_nodes = _collect_source_nodes(graph)
+            jobs = [Executor.submit(_job, graph, node) for node in source_nodes]
+        source_nodes = []
+        for job in jobs:
+            for v in job.result():
+                in_degree[v] -= 1
+                if in_degree[v] == 0:
+                    source_nodes.append(v)
 
     if len(L) != num_vertices:
         raise ValueError("Graph is not acyclic.")
-- 
2.43.0


From 228fcd28a3b0129628cdb3e6ea3089a28f3aa081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 072/160] fix: max_flow must send flow back over edges and
 never into the source

---
 pydatastructs/graphs/algorithms.py | 68 +++++++++++++++---------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 204940f..6d924a1 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1194,6 +1194,22 @@ def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     return L
 
 
+def _residual_capacities(graph: Graph, u, flow_passed):
+    flows = flow_passed.get(u, {})
+    capacities = {v: -flows[v] for v in flows}
+    for v in graph.neighbors(u):
+        capacity = graph.get_edge(u, v.name).value or 0
+        capacities[v.name] = capacity - flows.get(v.name, 0)
+    return capacities
+
+
+def _pass_flow(flow_passed, u, v, flow):
+    flow_passed.setdefault(u, {})
+    flow_passed[u][v] = flow_passed[u].get(v, 0) + flow
+    flow_passed.setdefault(v, {})
+    flow_passed[v][u] = flow_passed[v].get(u, 0) - flow
+
+
 def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_passed, for_dinic=False):
     bfs_queue = Queue()
     parent, currentPathC = {}, {}
@@ -1201,18 +1217,15 @@ def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_pa
     bfs_queue.append(source_node)
     while len(bfs_queue) != 0:
         curr_node = bfs_queue.popleft()
-        next_nodes = graph.neighbors(curr_node)
-        if len(next_nodes) != 0:
-            for next_node in next_nodes:
-                capacity = graph.get_edge(curr_node, next_node.name).value
-                fp = flow_passed.get((curr_node, next_node.name), 0)
-                if capacity and parent.get(next_node.name, False) is False and capacity - fp > 0:
-                    parent[next_node.name] = curr_node
-                    next_flow = min(currentPathC[curr_node], capacity - fp)
-                    currentPathC[next_node.name] = next_flow
-                    if next_node.name == sink_node and not for_dinic:
-                        return (next_flow, parent)
-                    bfs_queue.append(next_node.name)
+        # flow can be sent back over an edge too
+        for next_node, capacity in _residual_capacities(graph, curr_node, flow_passed).items():
+            if capacity > 0 and next_node != source_node and parent.get(next_node, False) is False:
+                parent[next_node] = curr_node
+                next_flow = min(currentPathC[curr_node], capacity)
+                currentPathC[next_node] = next_flow
+                if next_node == sink_node and not for_dinic:
+                    return (next_flow, parent)
+                bfs_queue.append(next_node)
     return (0, parent)
 
 
@@ -1225,10 +1238,7 @@ def _max_flow_edmonds_karp_(graph: Graph, source, sink):
         current = sink
         while current != source:
             prev = parent[current]
-            fp = flow_passed.get((prev, current), 0)
-            flow_passed[(prev, current)] = fp + new_flow
-            fp = flow_passed.get((current, prev), 0)
-            flow_passed[(current, prev)] = fp - new_flow
+            _pass_flow(flow_passed, prev, current, new_flow)
             current = prev
         new_flow, parent = _breadth_first_search_max_flow(graph, source, sink, flow_passed)
     return m_flow
@@ -1238,23 +1248,15 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
     if u == sink_node:
         return flow
 
-    next_nodes = graph.neighbors(u)
-    if len(next_nodes) != 0:
-        for next_node in next_nodes:
-            capacity = graph.get_edge(u, next_node.name).value
-            fp = flow_passed.get((u, next_node.name), 0)
-            parent_cond = parent.get(next_node.name, None)
-            if parent_cond and parent_cond == u and capacity - fp > 0:
-                path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                               next_node.name,
-                                                               parent, sink_node,
-                                min(flow, capacity - fp), flow_passed)
-                if path_flow > 0:
-                    fp = flow_passed.get((u, next_node.name), 0)
-                    flow_passed[(u, next_node.name)] = fp + path_flow
-                    fp = flow_passed.get((next_node.name, u), 0)
-                    flow_passed[(next_node.name, u)] = fp - path_flow
-                    return path_flow
+    for next_node, capacity in _residual_capacities(graph, u, flow_passed).items():
+        if parent.get(next_node, None) == u and capacity > 0:
+            path_flow = _depth_first_search_max_flow_dinic(graph, next_node,
+                                                           parent, sink_node,
+                                                           min(flow, capacity),
+                                                           flow_passed)
+            if path_flow > 0:
+                _pass_flow(flow_passed, u, next_node, path_flow)
+                return path_flow
     return 0
 
 
-- 
2.43.0


From 0b46b902baa545124aafacca1192a09a39b863e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 073/160] fix: find_bridges must follow edges added in one
 direction both ways

---
 pydatastructs/graphs/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6d924a1..a27fd00 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1357,6 +1357,8 @@ def find_bridges(graph):
         for u in adj[v]:
             idx_u = mapping[u]
             n_adj[idx_v].append(idx_u)
+            # an edge may have been added in one direction only
+            n_adj[idx_u].append(idx_v)
 
     visited = [False] * n
     disc = [0] * n
-- 
2.43.0


From bc077f9a0fbaf1c806fc7a3538084fb22ac2bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 074/160] fix: z_function must find queries in texts that
 contain its separator

---
 pydatastructs/strings/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..d7e04ac 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -240,8 +240,9 @@ def _z_function(text, query):
         return positions
 
     fct = _z_vector(text, query)
-    for pos in range(len(fct)):
-        if fct[pos] == len(query):
+    for pos in range(len(text)):
+        # a text with the separator in it may match beyond the query
+        if fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
-- 
2.43.0


From a928a4dbe9ce931a41aabdb74ef8e0b69faf472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 075/160] fix: rabin_karp must compare where the hashes are
 equal

---
 pydatastructs/strings/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index d7e04ac..a020e70 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -161,7 +161,8 @@ def _rabin_karp(text, query):
         text_hash[i+1] = (text_hash[i] + ord(text[i]) * p_pow[i]) % MOD
     for i in range(t - q + 1):
         curr_hash = (text_hash[i + q] + MOD - text_hash[i]) % MOD
-        if curr_hash == (query_hash * p_pow[i]) % MOD:
+        if curr_hash == (query_hash * p_pow[i]) % MOD and \
+            text[i:i + q] == query:
             positions.append(i)
 
     return positions
-- 
2.43.0


From 1323c8f9287ec8d16175251ed60991db3b7418e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 076/160] fix: strings_with_prefix must return the whole of a
 string equal to the prefix

---
 pydatastructs/strings/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..0fb23c1 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -195,7 +195,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From 329a458eea8f3605a043a58731a7b4f65bdb5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 077/160] fix: Trie.delete must return None for a mere prefix
 of inserted strings

---
 pydatastructs/strings/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index 0fb23c1..ec88ee3 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -151,6 +151,8 @@ class Trie(object):
                 return None
             walk = walk.get_child(char)
         path.append(walk)
+        if not walk.is_terminal:
+            return None
         i = len(path) - 1
         path[i].is_terminal = False
         while not path[i]._children and i >= 1:
-- 
2.43.0


From 6ade0d21a3bc16c68546079dfe1af86f3dae0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 078/160] fix: keep the CRLF line endings heaps.py had

---
 pydatastructs/trees/heaps.py | 1202 +++++++++++++++++-----------------
 1 file changed, 601 insertions(+), 601 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 73982d8..b2fd2ad 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,601 +1,601 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = [node for node in elements._data if node is not None]
-            if not all(_check_type(node, TreeNode) for node in elements):
-                raise TypeError("Expected an Array of TreeNode.")
-            elements = DynamicOneDimensionalArray(TreeNode, elements)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        _, min_idx = self.find_minimum(get_index=True)
-        self._delete_root(min_idx)
-
-    def _delete_root(self, idx):
-        """
-        Deletes the root of the tree at the given index of
-        the root list.
-        """
-        min_node = self.root_list[idx].root
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        while not node.is_root:
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-        for idx, tree in enumerate(self.root_list):
-            if tree.root is node:
-                self._delete_root(idx)
-                break
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = [node for node in elements._data if node is not None]
+            if not all(_check_type(node, TreeNode) for node in elements):
+                raise TypeError("Expected an Array of TreeNode.")
+            elements = DynamicOneDimensionalArray(TreeNode, elements)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = root_list
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        _, min_idx = self.find_minimum(get_index=True)
+        self._delete_root(min_idx)
+
+    def _delete_root(self, idx):
+        """
+        Deletes the root of the tree at the given index of
+        the root list.
+        """
+        min_node = self.root_list[idx].root
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        while not node.is_root:
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+        for idx, tree in enumerate(self.root_list):
+            if tree.root is node:
+                self._delete_root(idx)
+                break
-- 
2.43.0


From f5534f8a61f52b11631b5fcde47ef1dd844fad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 079/160] fix: the C++ trees must compare keys and indices by
 value

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  8 +++---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 28 +++++++++----------
 .../trees/_backend/cpp/CartesianTree.hpp      |  2 +-
 .../trees/_backend/cpp/RedBlackTree.hpp       |  6 ++--
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  |  8 +++---
 .../trees/_backend/cpp/SplayTree.hpp          |  8 +++---
 pydatastructs/utils/_backend/cpp/utils.hpp    |  4 +++
 7 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index f0de0b0..d843605 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -202,20 +202,20 @@ static PyObject* AVLTree__balance_insertion(AVLTree* self, PyObject *args) {
         long bf = PyLong_AsLong(AVLTree_balance_factor(self, Py_BuildValue("(O)", bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])));
         if (bf != 1 && bf != 0 && bf != -1) {
             PyObject* l = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-            if (l != Py_None && l == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->left == last2last) {
+            if (l != Py_None && _equal(l, last) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->left, last2last)) {
                 AVLTree__right_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
             PyObject* r = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
-            if (r != Py_None && r == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->right == last2last) {
+            if (r != Py_None && _equal(r, last) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->right, last2last)) {
                 AVLTree__left_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
-            if (l != Py_None && l == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->right == last2last) {
+            if (l != Py_None && _equal(l, last) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->right, last2last)) {
                 AVLTree__left_right_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
-            if (r != Py_None && r == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->left == last2last) {
+            if (r != Py_None && _equal(r, last) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->left, last2last)) {
                 AVLTree__right_left_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
         }
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 5573847..d3b61c2 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -95,7 +95,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     while (walk != Py_None) {
         PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
 
-        if (curr_key == key) {
+        if (_equal(curr_key, key)) {
             break;
         }
         parent = walk;
@@ -231,7 +231,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = Py_None;
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
+            if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
                 Py_INCREF(Py_None);
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left = Py_None;
             }
@@ -306,7 +306,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             }
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
+            if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left = child;
             }
             else {
@@ -347,7 +347,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == bound_key) {
+    if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key)) {
         if (is_upper == Py_False) {
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
@@ -405,7 +405,7 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     while (!stack.empty()) {
         long node = stack.top();
         stack.pop();
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key == key) {
+        if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key)) {
             node_idx = node;
             break;
         }
@@ -429,12 +429,12 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
 }
 
 static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args) {
-    long j = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long k = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* key1 = PyObject_GetItem(args, PyZero);
+    PyObject* key2 = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
-    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(j),root));
-    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(k),root));
+    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key1,root));
+    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key2,root));
     long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
     long m = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path2)));
     if (n==0 || m==0) {
@@ -442,9 +442,9 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     long i = 0;
-    j = 0;
+    long j = 0;
     while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) != PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
+        if (!_equal(PyList_GetItem(path1, i), PyList_GetItem(path2, j))) {
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key;
         }
         i += 1;
@@ -512,7 +512,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             curr_root = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->right;
         }
 
-        if (curr_root == u || curr_root == v) {
+        if (_equal(curr_root, u) || _equal(curr_root, v)) {
             if (curr_root == Py_None) {
                 Py_RETURN_NONE;
             }
@@ -578,9 +578,9 @@ static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     }
     BinaryTree* bt = self->binary_tree;
     long r = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])) + 1;
-    while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key != reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key) {
+    while (!_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key)) {
         PyObject* p = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->parent;
-        if (walk == reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right) {
+        if (_equal(walk, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right)) {
             r = r + BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])) + 1;
         }
         walk = p;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 012d212..4a61cda 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -52,7 +52,7 @@ static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args)
     TreeNode* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
 
     while ((node->parent != Py_None) && (parent->priority > node->priority)) {
-        if (parent->right == node_idx) {
+        if (_equal(parent->right, node_idx)) {
             SelfBalancingBinaryTree__left_rotate(self->sbbt, Py_BuildValue("OO", parent_idx, node_idx));
         }
         else {
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3604031..9c95294 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -66,7 +66,7 @@ static PyObject* RedBlackTree__get_sibling(RedBlackTree *self, PyObject* args) {
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
-    if (node_idx == node->left) {
+    if (_equal(node_idx, node->left)) {
         PyObject* sibling_idx = node->right;
         return sibling_idx;
     }
@@ -91,7 +91,7 @@ static PyObject* RedBlackTree__is_onleft(RedBlackTree *self, PyObject* args) {
     PyObject* parent_idx = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->left == node_idx) {
+    if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->left, node_idx)) {
         Py_RETURN_TRUE;
     }
     Py_RETURN_FALSE;
@@ -364,7 +364,7 @@ static PyObject* RedBlackTree___fix_deletion(RedBlackTree* self, PyObject *args)
 
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     long color = node->color;
-    while (node_idx != bt->root_idx && color == 0) {
+    while (!_equal(node_idx, bt->root_idx) && color == 0) {
         PyObject* sibling_idx = RedBlackTree__get_sibling(self, Py_BuildValue("(O)", node_idx));
         PyObject* parent_idx = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
         if (sibling_idx == Py_None) {
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 2f7fbf3..d2e9e27 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -94,7 +94,7 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->left = y;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->parent;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left == j) {
+        if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left = k;
         }
         else {
@@ -121,7 +121,7 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->right = y;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->parent;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left == j) {
+        if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left = k;
         }
         else {
@@ -165,7 +165,7 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
 
     PyObject* ip = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(i)])->parent;
     if (ip != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left == j) {
+        if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left = i;
         }
         else {
@@ -206,7 +206,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 
     PyObject* ip = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(i)])->parent;
     if (ip != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left == j) {
+        if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left = i;
         }
         else {
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b41eb3d..e546326 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -48,7 +48,7 @@ static PyObject* SplayTree__zig(SplayTree *self, PyObject* args) {
     PyObject* p = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x) {
+    if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x)) {
         SelfBalancingBinaryTree__right_rotate(self->sbbt, Py_BuildValue("(OO)", p, x));
     }
     else {
@@ -107,13 +107,13 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
         if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent == Py_None) {
             SplayTree__zig(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->left == p) {
+        else if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->left, p)) {
             SplayTree__zig_zig(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right == p) {
+        else if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right, x) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right, p)) {
             SplayTree__zag_zag(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right == p) {
+        else if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x) && _equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right, p)) {
             SplayTree__zag_zig(self, Py_BuildValue("(O)", p));
         }
         else {
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index e135a64..585b57a 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -138,6 +138,10 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
     return result;
 }
 
+static bool _equal(PyObject* u, PyObject* v) {
+    return PyObject_RichCompareBool(u, v, Py_EQ) == 1;
+}
+
 enum class NodeType_ {
     InvalidType,
     Node,
-- 
2.43.0


From e1368c064ccd760b8b0c2a5c180a338e4938f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 080/160] fix: lowest_common_ancestor of C++ trees must work
 wherever the root is stored and for ancestors

---
 .../trees/_backend/cpp/BinarySearchTree.hpp    | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index d3b61c2..f8f7bc6 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -419,11 +419,11 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     if (node_idx == -1) {
         return path;
     }
-    while (node_idx != 0) {
+    while (node_idx != PyLong_AsLong(root)) {
         PyList_Append(path, PyLong_FromLong(node_idx));
         node_idx = PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent);
     }
-    PyList_Append(path, PyLong_FromLong(0));
+    PyList_Append(path, root);
     PyList_Reverse(path);
     return path;
 }
@@ -451,15 +451,8 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
         j += 1;
     }
 
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) < PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(n-1))))])->key;
-        }
-        else if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) > PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            break;
-        }
-        i += 1;
-        j += 1;
+    if (n < m) {
+        return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, n-1))])->key;
     }
     return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key;
 }
@@ -477,6 +470,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
         return NULL;
     }
+    if (_equal(curr_root, u) || _equal(curr_root, v)) {
+        return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
+    }
 
     if (!PyCallable_Check(bt->comparator)) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-- 
2.43.0


From 9a4ce6eb904b603fad82e6ef31ae193f5219e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 081/160] fix: C++ binary trees must link an inserted node
 where the array put it

---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index f8f7bc6..641e4ed 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -131,6 +131,22 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     Py_RETURN_NONE; // dummy return statement, never executed
 }
 
+static PyObject* BinarySearchTree__append_child(BinarySearchTree* self, PyObject* parent, PyObject** link, TreeNode* node) {
+    // Links the node as a child before the array gets a chance to move its
+    // elements, returns where the node is afterwards.
+    BinaryTree* bt = self->binary_tree;
+    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
+    node->parent = parent;
+    *link = PyLong_FromLong(bt->tree->_last_pos_filled + 1);
+    PyObject* new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("[O]", reinterpret_cast<PyObject*>(node)));
+    bt->size = bt->size + 1;
+    if (new_indices == Py_None) {
+        return PyLong_FromLong(bt->tree->_last_pos_filled);
+    }
+    bt->root_idx = PyObject_GetItem(new_indices, root_key);
+    return PyObject_GetItem(new_indices, node->key);
+}
+
 static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
@@ -160,7 +176,6 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
-    PyObject* prev_node = PyLong_FromLong(PyLong_AsLong(bt->root_idx));
     bool flag = true;
 
     while (flag) {
@@ -180,25 +195,21 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
 
         if (comp==0) {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
-                new_node->parent = prev_node;
-                ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->size);
-                bt->size = bt->size + 1;
+                walk = BinarySearchTree__append_child(self, walk, &reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right, new_node);
                 flag = false;
             }
-            prev_node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
-            walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
+            else {
+                walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
+            }
         }
         else {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None) {
-                new_node->parent = prev_node;
-                ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->size);
-                bt->size = bt->size + 1;
+                walk = BinarySearchTree__append_child(self, walk, &reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left, new_node);
                 flag = false;
             }
-            prev_node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-            walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
+            else {
+                walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
+            }
         }
     }
     BinarySearchTree__update_size(self, Py_BuildValue("(O)",walk));
-- 
2.43.0


From 21ce3fe61fcff5244c194bb7361cc5c6464be1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 082/160] fix: ArrayForTrees must tell its array the size it
 was compacted to

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 4828fe7..39f7bef 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -126,7 +126,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         }
         self->_last_pos_filled = j - 1;
         self->_one_dimensional_array->_data = arr_new;
-        self->_size = new_size;
+        self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
 
         return new_indices;
-- 
2.43.0


From df4c09a27854dd98a348cc973c2c6e165cc78dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 083/160] fix: deleting from an empty C++ binary search tree
 must return None

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 641e4ed..a2840fd 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -89,6 +89,9 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     PyObject* walk = bt->root_idx;
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
+        if (ret_parent != Py_None && PyLong_AsLong(ret_parent) != 0) {
+            return Py_BuildValue("(OO)", Py_None, Py_None);
+        }
         Py_RETURN_NONE;
     }
 
-- 
2.43.0


From 1bcad94fef630052f998f52b1791baadd9b3bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 084/160] fix: deleting a root with one child must relink and
 resize what is below it in C++ trees

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index a2840fd..d967eb8 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -313,11 +313,18 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->key;
             Py_INCREF(Py_None);
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->parent = Py_None;
+            for (PyObject* idx : {reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->left, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right}) {
+                if (idx != Py_None) {
+                    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)])->parent = bt->root_idx;
+                }
+            }
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
             if (new_indices != Py_None) {
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
+            a = bt->root_idx;
+            BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
         else {
             if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
-- 
2.43.0


From 1544b31a5e58c01a606d71863b6ae3ce54ce4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 085/160] fix: deleting a node with one child must not use its
 child's index from before compaction in C++ trees

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index d967eb8..35c1301 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -339,9 +339,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (new_indices != Py_None) {
-                parent = PyDict_GetItem(new_indices, par_key);
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = PyDict_GetItem(new_indices, root_key);
-                a = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
-- 
2.43.0


From 12642ead138da053bbb2b24eeda82be8168d45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 086/160] fix: C++ trees must own the keys and data they store
 and the references they return

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp      |  1 +
 .../trees/_backend/cpp/BinarySearchTree.hpp       | 15 ++++++++++++++-
 .../trees/_backend/cpp/CartesianTree.hpp          |  1 +
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp |  1 +
 .../_backend/cpp/SelfBalancingBinaryTree.hpp      |  1 +
 pydatastructs/trees/_backend/cpp/SplayTree.hpp    |  1 +
 pydatastructs/trees/_backend/cpp/Treap.hpp        |  1 +
 7 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index d843605..e3ab8a5 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -307,6 +307,7 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
 }
 
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 35c1301..9ca71a5 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -126,6 +126,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
 
     Py_INCREF(Py_None);
     if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
+        Py_INCREF(walk);
         return walk;
     }
     else {
@@ -159,7 +160,8 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
 
-    PyObject* parent = PyLong_FromLong(0);
+    Py_INCREF(key);
+    Py_INCREF(data);
 
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
     BinaryTree* bt = self->binary_tree;
@@ -348,6 +350,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
 
     if (balancing_info != Py_None) {
         if (PyLong_AsLong(balancing_info) == 1) {
+            Py_INCREF(a);
             return a;
         }
     }
@@ -368,6 +371,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     }
     if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key)) {
         if (is_upper == Py_False) {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
         else {
@@ -397,6 +401,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
             return res_bound;
         }
         else {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
     }
@@ -464,6 +469,7 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
     long j = 0;
     while (i<n && j<m) {
         if (!_equal(PyList_GetItem(path1, i), PyList_GetItem(path2, j))) {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key;
         }
         i += 1;
@@ -471,8 +477,10 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
     }
 
     if (n < m) {
+        Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, n-1))])->key);
         return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, n-1))])->key;
     }
+    Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key);
     return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key;
 }
 
@@ -490,6 +498,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     if (_equal(curr_root, u) || _equal(curr_root, v)) {
+        Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
     }
 
@@ -531,6 +540,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             if (curr_root == Py_None) {
                 Py_RETURN_NONE;
             }
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
         }
 
@@ -564,6 +574,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     if (curr_root == Py_None) {
         Py_RETURN_NONE;
     }
+    Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
 }
 
@@ -619,6 +630,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
     while (walk != Py_None) {
         long l = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]));
         if (i == l) {
+            Py_INCREF(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]);
             return bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)];
         }
         PyObject* left_walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
@@ -675,6 +687,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
 }
 
 static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->root_idx);
     return self->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 4a61cda..64c5b6d 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -145,6 +145,7 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
 }
 
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 9c95294..8d5291d 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -579,6 +579,7 @@ static PyObject* RedBlackTree_search(RedBlackTree* self, PyObject *args, PyObjec
 }
 
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index d2e9e27..bd9f3e6 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -220,6 +220,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 }
 
 static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self, void *closure) {
+    Py_INCREF(self->bst->binary_tree->root_idx);
     return self->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index e546326..8d723f1 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -285,6 +285,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 5619d27..932981f 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -63,6 +63,7 @@ static PyObject* Treap_insert(Treap *self, PyObject* args) {
 }
 
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
+    Py_INCREF(self->ct->sbbt->bst->binary_tree->root_idx);
     return self->ct->sbbt->bst->binary_tree->root_idx;
 }
 
-- 
2.43.0


From dcb5a288e51dc963cca4f337b4e9bebbfe12a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 087/160] fix: select on an emptied C++ tree must raise
 ValueError

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 9ca71a5..f4c8e10 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -622,7 +622,8 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     BinaryTree* bt = self->binary_tree;
-    if (i >= bt->tree->_num) {
+    long num = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None ? 0 : bt->tree->_num;
+    if (i >= num) {
         PyErr_SetString(PyExc_ValueError, "Integer passed to select() is greater than the size of the tree.");
         return NULL;
     }
-- 
2.43.0


From a8ed67427a16aa909bc0ab521a87846c7e90653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 088/160] fix: rotations of C++ trees must move the root mark
 and keep the subtree sizes

---
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index bd9f3e6..4832d65 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -64,11 +64,11 @@ static PyObject* SelfBalancingBinaryTree__simple_path(SelfBalancingBinaryTree* s
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_1(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_1(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_2(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_2(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree_lowest_common_ancestor(SelfBalancingBinaryTree* self, PyObject *args) {
@@ -83,6 +83,21 @@ static PyObject* SelfBalancingBinaryTree_select(SelfBalancingBinaryTree* self, P
     return BinarySearchTree_select(self->bst, args);
 }
 
+static void SelfBalancingBinaryTree__set_root(SelfBalancingBinaryTree* self, PyObject* old_root, PyObject* new_root) {
+    BinaryTree* bt = self->bst->binary_tree;
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(old_root)])->is_root = false;
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(new_root)])->is_root = true;
+    bt->root_idx = new_root;
+}
+
+static void SelfBalancingBinaryTree__resize(SelfBalancingBinaryTree* self, PyObject* idx) {
+    BinaryTree* bt = self->bst->binary_tree;
+    if (bt->is_order_statistic) {
+        TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)]);
+        node->size = BinarySearchTree_left_size(self->bst, node) + BinarySearchTree_right_size(self->bst, node) + 1;
+    }
+}
+
 static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree* self, PyObject *args) {
     PyObject* j = PyObject_GetItem(args, PyZero);
     PyObject* k = PyObject_GetItem(args, PyOne);
@@ -105,8 +120,10 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->right = j;
     PyObject* kp = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent;
     if (kp == Py_None) {
-        bt->root_idx = k;
+        SelfBalancingBinaryTree__set_root(self, j, k);
     }
+    SelfBalancingBinaryTree__resize(self, j);
+    SelfBalancingBinaryTree__resize(self, k);
     Py_RETURN_NONE;
 }
 
@@ -132,8 +149,10 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->left = j;
     PyObject* kp = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent;
     if (kp == Py_None) {
-        bt->root_idx = k;
+        SelfBalancingBinaryTree__set_root(self, j, k);
     }
+    SelfBalancingBinaryTree__resize(self, j);
+    SelfBalancingBinaryTree__resize(self, k);
     Py_RETURN_NONE;
 }
 
@@ -173,8 +192,11 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
         }
     }
     else {
-        bt->root_idx = i;
+        SelfBalancingBinaryTree__set_root(self, j, i);
     }
+    SelfBalancingBinaryTree__resize(self, j);
+    SelfBalancingBinaryTree__resize(self, k);
+    SelfBalancingBinaryTree__resize(self, i);
     Py_RETURN_NONE;
 }
 
@@ -214,8 +236,11 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
         }
     }
     else {
-        bt->root_idx = i;
+        SelfBalancingBinaryTree__set_root(self, j, i);
     }
+    SelfBalancingBinaryTree__resize(self, j);
+    SelfBalancingBinaryTree__resize(self, k);
+    SelfBalancingBinaryTree__resize(self, i);
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 4902ce1637b3846d6f6d0c5e05b0bfcc3bb47be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 089/160] fix: C++ AVL trees must balance from the inserted
 node and ignore deletion of absent keys

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index e3ab8a5..2814b50 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -237,8 +237,8 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     }
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    long s = bt->size - 1;
-    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", PyLong_FromLong(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", node_idx, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent));
 
     Py_RETURN_NONE;
 }
@@ -297,6 +297,9 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
+    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None) {
+        Py_RETURN_NONE;
+    }
 
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
-- 
2.43.0


From 0d51185e7ce31b8dc8abab123586ff56d5eb0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 090/160] fix: the color member of C++ tree nodes must be their
 color

---
 pydatastructs/utils/_backend/cpp/TreeNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index b9361a1..25f5610 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -67,7 +67,7 @@ static struct PyMemberDef TreeNode_PyMemberDef[] = {
     {"left", T_OBJECT, offsetof(TreeNode, left), 0, "TreeNode left"},
     {"right", T_OBJECT, offsetof(TreeNode, right), 0, "TreeNode right"},
     {"parent", T_OBJECT, offsetof(TreeNode, parent), 0, "TreeNode parent"},
-    {"color", T_LONG, offsetof(TreeNode, size), 0, "RedBlackTreeNode color"},
+    {"color", T_LONG, offsetof(TreeNode, color), 0, "RedBlackTreeNode color"},
     {"priority", T_DOUBLE, offsetof(TreeNode, priority), 0, "CartesianTreeNode's priority"},
     {NULL},
 };
-- 
2.43.0


From 125680c73c1b9d815424d5a4127cbb1de894f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 091/160] fix: C++ red-black trees must keep colours, sizes and
 indices through inserting again and deleting

---
 .../trees/_backend/cpp/RedBlackTree.hpp          | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 8d5291d..bfcfa73 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -32,6 +32,7 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->color = 0;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -161,7 +162,11 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
+    bool is_new = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None;
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (!is_new) {
+        Py_RETURN_NONE;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
@@ -174,6 +179,7 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
 
     if (node->is_root) {
@@ -242,7 +248,7 @@ static PyObject* RedBlackTree__transplant_values(RedBlackTree* self, PyObject *a
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->data = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->data;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->left = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->left;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->right;
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent == Py_None;
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent = Py_None;
 
         return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     }
@@ -441,11 +447,14 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
         }
     }
     else if (RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
-        PyObject* child = RedBlackTree__replace_node(self, Py_BuildValue("(O)", node_idx));
         parent = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
         PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
         PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
+        if (new_indices != Py_None) {
+            a = PyDict_GetItem(new_indices, par_key);
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        }
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
     Py_RETURN_NONE;
@@ -466,6 +475,7 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         if (new_indices != Py_None) {
             bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
     Py_RETURN_NONE;
 }
@@ -523,13 +533,13 @@ static PyObject* RedBlackTree___one_child_case(RedBlackTree* self, PyObject *arg
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = walk1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->parent = parent;
-        PyObject* a = RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree___walk1_walk_isblack(self, Py_BuildValue("(OO)", PyLong_FromLong(walk_original_color), walk1)) == Py_True) {
             RedBlackTree___fix_deletion(self, Py_BuildValue("(O)", walk1));
         }
         else {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->color = 0;
         }
+        RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 6081720acdf40b4a97b7418e142ced2b307c755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 092/160] fix: C++ Cartesian trees and treaps must keep sizes
 and priorities, also when a key is inserted again

---
 .../trees/_backend/cpp/CartesianTree.hpp      | 50 ++++++++++++-------
 pydatastructs/trees/_backend/cpp/Treap.hpp    |  5 ++
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 64c5b6d..84c4892 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -49,6 +49,10 @@ static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args)
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     PyObject* parent_idx = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent;
+    if (parent_idx == Py_None) {
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
+        Py_RETURN_NONE;
+    }
     TreeNode* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
 
     while ((node->parent != Py_None) && (parent->priority > node->priority)) {
@@ -92,6 +96,24 @@ static PyObject* Cartesian_Tree__trickle_down(CartesianTree* self, PyObject *arg
     Py_RETURN_NONE;
 }
 
+static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObject *kwds) {
+    Py_INCREF(Py_None);
+    PyObject* key = Py_None;
+    PyObject* balancing_info = PyZero;
+    static char* keywords[] = {"key","balancing_info", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
+        return NULL;
+    }
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (node_idx != Py_None) {
+        Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
+        PyObject* kwd_bal = PyDict_New();
+        PyDict_SetItemString(kwd_bal, "balancing_info", balancing_info);
+        return SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+    }
+    Py_RETURN_NONE;
+}
+
 static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
@@ -103,7 +125,14 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
         return NULL;
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
+    double priority_value = PyFloat_AsDouble(priority);
+    if (priority_value == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
+    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) != Py_None) {
+        CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New());
+    }
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
@@ -112,10 +141,11 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
     new_node->isCartesianTreeNode = true;
-    new_node->priority = PyFloat_AsDouble(priority);
+    new_node->priority = priority_value;
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
     if (node->is_root) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
@@ -126,24 +156,6 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_RETURN_NONE;
 }
 
-static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObject *kwds) {
-    Py_INCREF(Py_None);
-    PyObject* key = Py_None;
-    PyObject* balancing_info = PyZero;
-    static char* keywords[] = {"key","balancing_info", NULL};
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
-        return NULL;
-    }
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
-    if (node_idx != Py_None) {
-        Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
-        PyObject* kwd_bal = PyDict_New();
-        PyDict_SetItemString(kwd_bal, "balancing_info", balancing_info);
-        return SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
-    }
-    Py_RETURN_NONE;
-}
-
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 932981f..8f4e1b2 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -33,6 +33,11 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
     self->ct = reinterpret_cast<CartesianTree*>(p);
     self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
+    TreeNode* root = reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0]);
+    if (root->key != Py_None) {
+        root->isCartesianTreeNode = true;
+        root->priority = ((double) rand() / (RAND_MAX));
+    }
 
     return reinterpret_cast<PyObject*>(self);
 }
-- 
2.43.0


From 559d3181bca194c74668bf27c26b90c92cbc05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 093/160] fix: inserting into, joining and splitting C++ splay
 trees must keep the tree and its array consistent

---
 .../trees/_backend/cpp/SplayTree.hpp          | 119 ++++++++++++------
 1 file changed, 79 insertions(+), 40 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 8d723f1..e2164bb 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -43,6 +43,10 @@ static PyObject* SplayTree___str__(SplayTree *self) {
     return BinarySearchTree___str__(self->sbbt->bst);
 }
 
+static PyObject* SplayTree_search(SplayTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_search(self->sbbt->bst, args, kwds);
+}
+
 static PyObject* SplayTree__zig(SplayTree *self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
     PyObject* p = PyObject_GetItem(args, PyOne);
@@ -136,7 +140,6 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[bt->size-1])->parent = p;
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
 
     Py_RETURN_NONE;
@@ -160,11 +163,46 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     return status;
 }
 
+static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
+    long node = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    PyObject* visit = PyList_New(0);
+    ArrayForTrees* tree = self->sbbt->bst->binary_tree->tree;
+    long size = self->sbbt->bst->binary_tree->size;
+    std::stack<long> s;
+    s.push(node);
+
+    while (!s.empty()) {
+        node = s.top();
+        s.pop();
+        TreeNode* curr_node = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[node]);
+        PyList_Append(visit, reinterpret_cast<PyObject*>(curr_node));
+        if (curr_node->right != Py_None) {
+            s.push(PyLong_AsLong(curr_node->right));
+        }
+        if (curr_node->left != Py_None) {
+            s.push(PyLong_AsLong(curr_node->left));
+        }
+    }
+    return visit;
+}
+
 static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     SplayTree* other = reinterpret_cast<SplayTree*>(PyObject_GetItem(args, PyZero));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
+    if (reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(obt->root_idx)])->key == Py_None) {
+        Py_RETURN_NONE;
+    }
+    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None) {
+        PyObject* elements = SplayTree__pre_order(other, Py_BuildValue("(O)", obt->root_idx));
+        for (int i=0; i<PyList_Size(elements); i++) {
+            TreeNode* node = reinterpret_cast<TreeNode*>(PyList_GetItem(elements, i));
+            SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", node->key, node->data));
+        }
+        Py_RETURN_NONE;
+    }
+
     PyObject* maxm = bt->root_idx;
     while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right != Py_None) {
         maxm = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right;
@@ -192,54 +230,58 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     }
 
     SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
-    long idx_update = bt->tree->_one_dimensional_array->_size;
+    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
+    if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
+        return NULL;
+    }
     long n = obt->tree->_one_dimensional_array->_size;
-    for (int i=0; i<n; i++) {
+    for (long i=0; i<n; i++) {
         PyObject* node = obt->tree->_one_dimensional_array->_data[i];
         if (node != Py_None) {
             TreeNode* treenode = reinterpret_cast<TreeNode*>(node);
-            if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
-                return NULL;
-            }
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
-            if (treenode->left != Py_None) {
-                node_copy->left = PyLong_FromLong(PyLong_AsLong(treenode->left) + idx_update);
-            }
-            if (treenode->right != Py_None) {
-                node_copy->right = PyLong_FromLong(PyLong_AsLong(treenode->right) + idx_update);
-            }
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
+            bt->size = bt->size + 1;
         }
         else {
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            bt->tree->_num -= 1;
         }
     }
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyLong_FromLong(PyLong_AsLong(obt->root_idx) + idx_update);
-
-    Py_RETURN_NONE;
-}
-
-static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
-    long node = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    PyObject* visit = PyList_New(0);
-    ArrayForTrees* tree = self->sbbt->bst->binary_tree->tree;
-    long size = self->sbbt->bst->binary_tree->size;
-    std::stack<long> s;
-    s.push(node);
 
-    while (!s.empty()) {
-        node = s.top();
-        s.pop();
-        TreeNode* curr_node = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[node]);
-        PyList_Append(visit, reinterpret_cast<PyObject*>(curr_node));
-        if (curr_node->right != Py_None) {
-            s.push(PyLong_AsLong(curr_node->right));
+    PyObject* indices = PyDict_New();
+    for (long i=0; i<=bt->tree->_last_pos_filled; i++) {
+        PyObject* node = bt->tree->_one_dimensional_array->_data[i];
+        if (node != Py_None) {
+            PyDict_SetItem(indices, reinterpret_cast<TreeNode*>(node)->key, PyLong_FromLong(i));
         }
-        if (curr_node->left != Py_None) {
-            s.push(PyLong_AsLong(curr_node->left));
+    }
+    bt->root_idx = PyDict_GetItem(indices, root_key);
+    PyObject** other_data = obt->tree->_one_dimensional_array->_data;
+    for (long i=0; i<n; i++) {
+        if (other_data[i] == Py_None) {
+            continue;
+        }
+        TreeNode* node = reinterpret_cast<TreeNode*>(other_data[i]);
+        TreeNode* node_copy = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyDict_GetItem(indices, node->key))]);
+        node_copy->size = node->size;
+        if (node->left != Py_None) {
+            node_copy->left = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(node->left)])->key);
+        }
+        if (node->right != Py_None) {
+            node_copy->right = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(node->right)])->key);
+        }
+        if (node->parent == Py_None) {
+            node_copy->parent = bt->root_idx;
+        }
+        else {
+            node_copy->parent = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(node->parent)])->key);
         }
     }
-    return visit;
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(obt->root_idx)])->key);
+    BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
+
+    Py_RETURN_NONE;
 }
 
 static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
@@ -265,7 +307,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
             return NULL;
     }
-    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyZero), PyDict_New()));
+    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyLong_FromLong(bt->is_order_statistic)), PyDict_New()));
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
@@ -273,12 +315,8 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
         }
         for (int j=PyList_Size(elements)-1; j>-1; j--) {
-            tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), kwd_parent);
-            e = PyTuple_GetItem(tup, 0);
-            p = PyTuple_GetItem(tup, 1);
-            bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)] = Py_None;
+            SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), PyDict_New());
         }
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = Py_None;
     }
 
     return reinterpret_cast<PyObject*>(other);
@@ -294,6 +332,7 @@ static struct PyMethodDef SplayTree_PyMethodDef[] = {
     {"insert", (PyCFunction) SplayTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) SplayTree_delete, METH_VARARGS, NULL},
     {"join", (PyCFunction) SplayTree_join, METH_VARARGS, NULL},
+    {"search", (PyCFunction) SplayTree_search, METH_VARARGS | METH_KEYWORDS, NULL},
     {"split", (PyCFunction) SplayTree_split, METH_VARARGS, NULL},
     {NULL}
 };
-- 
2.43.0


From dd1746cc9e2cd07efed4a851166f2d6635ce481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 094/160] fix: order queries inherited by C++ balanced trees
 must reach the search tree they hold

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  | 30 ++++++++++++++
 .../trees/_backend/cpp/CartesianTree.hpp      | 40 +++++++++++++++++++
 .../trees/_backend/cpp/RedBlackTree.hpp       | 30 ++++++++++++++
 .../trees/_backend/cpp/SplayTree.hpp          | 40 +++++++++++++++++++
 pydatastructs/trees/_backend/cpp/Treap.hpp    | 40 +++++++++++++++++++
 5 files changed, 180 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 2814b50..343670b 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -309,6 +309,30 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     Py_RETURN_TRUE;
 }
 
+static PyObject* AVLTree_lower_bound(AVLTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_lower_bound(self->sbbt->bst, args, kwds);
+}
+
+static PyObject* AVLTree_upper_bound(AVLTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_upper_bound(self->sbbt->bst, args, kwds);
+}
+
+static PyObject* AVLTree_lowest_common_ancestor(AVLTree* self, PyObject *args) {
+    return BinarySearchTree_lowest_common_ancestor(self->sbbt->bst, args);
+}
+
+static PyObject* AVLTree__simple_path(AVLTree* self, PyObject *args) {
+    return BinarySearchTree__simple_path(self->sbbt->bst, args);
+}
+
+static PyObject* AVLTree__lca_1(AVLTree* self, PyObject *args) {
+    return BinarySearchTree__lca_1(self->sbbt->bst, args);
+}
+
+static PyObject* AVLTree__lca_2(AVLTree* self, PyObject *args) {
+    return BinarySearchTree__lca_2(self->sbbt->bst, args);
+}
+
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -316,6 +340,12 @@ static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
 
 
 static struct PyMethodDef AVLTree_PyMethodDef[] = {
+    {"lower_bound", (PyCFunction) AVLTree_lower_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"upper_bound", (PyCFunction) AVLTree_upper_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"lowest_common_ancestor", (PyCFunction) AVLTree_lowest_common_ancestor, METH_VARARGS, NULL},
+    {"_simple_path", (PyCFunction) AVLTree__simple_path, METH_VARARGS, NULL},
+    {"_lca_1", (PyCFunction) AVLTree__lca_1, METH_VARARGS, NULL},
+    {"_lca_2", (PyCFunction) AVLTree__lca_2, METH_VARARGS, NULL},
     {"search", (PyCFunction) AVLTree_search, METH_VARARGS | METH_KEYWORDS, NULL},
     {"insert", (PyCFunction) AVLTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) AVLTree_delete, METH_VARARGS, NULL},
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 84c4892..9b4ee98 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -156,6 +156,38 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_RETURN_NONE;
 }
 
+static PyObject* CartesianTree_lower_bound(CartesianTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_lower_bound(self->sbbt->bst, args, kwds);
+}
+
+static PyObject* CartesianTree_upper_bound(CartesianTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_upper_bound(self->sbbt->bst, args, kwds);
+}
+
+static PyObject* CartesianTree_lowest_common_ancestor(CartesianTree* self, PyObject *args) {
+    return BinarySearchTree_lowest_common_ancestor(self->sbbt->bst, args);
+}
+
+static PyObject* CartesianTree_rank(CartesianTree* self, PyObject *args) {
+    return BinarySearchTree_rank(self->sbbt->bst, args);
+}
+
+static PyObject* CartesianTree_select(CartesianTree* self, PyObject *args) {
+    return BinarySearchTree_select(self->sbbt->bst, args);
+}
+
+static PyObject* CartesianTree__simple_path(CartesianTree* self, PyObject *args) {
+    return BinarySearchTree__simple_path(self->sbbt->bst, args);
+}
+
+static PyObject* CartesianTree__lca_1(CartesianTree* self, PyObject *args) {
+    return BinarySearchTree__lca_1(self->sbbt->bst, args);
+}
+
+static PyObject* CartesianTree__lca_2(CartesianTree* self, PyObject *args) {
+    return BinarySearchTree__lca_2(self->sbbt->bst, args);
+}
+
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -163,6 +195,14 @@ static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
 
 
 static struct PyMethodDef CartesianTree_PyMethodDef[] = {
+    {"lower_bound", (PyCFunction) CartesianTree_lower_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"upper_bound", (PyCFunction) CartesianTree_upper_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"lowest_common_ancestor", (PyCFunction) CartesianTree_lowest_common_ancestor, METH_VARARGS, NULL},
+    {"rank", (PyCFunction) CartesianTree_rank, METH_VARARGS, NULL},
+    {"select", (PyCFunction) CartesianTree_select, METH_VARARGS, NULL},
+    {"_simple_path", (PyCFunction) CartesianTree__simple_path, METH_VARARGS, NULL},
+    {"_lca_1", (PyCFunction) CartesianTree__lca_1, METH_VARARGS, NULL},
+    {"_lca_2", (PyCFunction) CartesianTree__lca_2, METH_VARARGS, NULL},
     {"insert", (PyCFunction) CartesianTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) CartesianTree_delete, METH_VARARGS | METH_KEYWORDS, NULL},
     {"search", (PyCFunction) CartesianTree_search, METH_VARARGS | METH_KEYWORDS, NULL},
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index bfcfa73..e8ff15b 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -588,6 +588,30 @@ static PyObject* RedBlackTree_search(RedBlackTree* self, PyObject *args, PyObjec
     return BinarySearchTree_search(self->sbbt->bst, args, kwds);
 }
 
+static PyObject* RedBlackTree_lowest_common_ancestor(RedBlackTree* self, PyObject *args) {
+    return BinarySearchTree_lowest_common_ancestor(self->sbbt->bst, args);
+}
+
+static PyObject* RedBlackTree_rank(RedBlackTree* self, PyObject *args) {
+    return BinarySearchTree_rank(self->sbbt->bst, args);
+}
+
+static PyObject* RedBlackTree_select(RedBlackTree* self, PyObject *args) {
+    return BinarySearchTree_select(self->sbbt->bst, args);
+}
+
+static PyObject* RedBlackTree__simple_path(RedBlackTree* self, PyObject *args) {
+    return BinarySearchTree__simple_path(self->sbbt->bst, args);
+}
+
+static PyObject* RedBlackTree__lca_1(RedBlackTree* self, PyObject *args) {
+    return BinarySearchTree__lca_1(self->sbbt->bst, args);
+}
+
+static PyObject* RedBlackTree__lca_2(RedBlackTree* self, PyObject *args) {
+    return BinarySearchTree__lca_2(self->sbbt->bst, args);
+}
+
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -595,6 +619,12 @@ static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
 
 
 static struct PyMethodDef RedBlackTree_PyMethodDef[] = {
+    {"lowest_common_ancestor", (PyCFunction) RedBlackTree_lowest_common_ancestor, METH_VARARGS, NULL},
+    {"rank", (PyCFunction) RedBlackTree_rank, METH_VARARGS, NULL},
+    {"select", (PyCFunction) RedBlackTree_select, METH_VARARGS, NULL},
+    {"_simple_path", (PyCFunction) RedBlackTree__simple_path, METH_VARARGS, NULL},
+    {"_lca_1", (PyCFunction) RedBlackTree__lca_1, METH_VARARGS, NULL},
+    {"_lca_2", (PyCFunction) RedBlackTree__lca_2, METH_VARARGS, NULL},
     {"insert", (PyCFunction) RedBlackTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) RedBlackTree_delete, METH_VARARGS | METH_KEYWORDS, NULL},
     {"search", (PyCFunction) RedBlackTree_search, METH_VARARGS | METH_KEYWORDS, NULL},
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index e2164bb..53d782d 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -322,6 +322,38 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     return reinterpret_cast<PyObject*>(other);
 }
 
+static PyObject* SplayTree_lower_bound(SplayTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_lower_bound(self->sbbt->bst, args, kwds);
+}
+
+static PyObject* SplayTree_upper_bound(SplayTree* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_upper_bound(self->sbbt->bst, args, kwds);
+}
+
+static PyObject* SplayTree_lowest_common_ancestor(SplayTree* self, PyObject *args) {
+    return BinarySearchTree_lowest_common_ancestor(self->sbbt->bst, args);
+}
+
+static PyObject* SplayTree_rank(SplayTree* self, PyObject *args) {
+    return BinarySearchTree_rank(self->sbbt->bst, args);
+}
+
+static PyObject* SplayTree_select(SplayTree* self, PyObject *args) {
+    return BinarySearchTree_select(self->sbbt->bst, args);
+}
+
+static PyObject* SplayTree__simple_path(SplayTree* self, PyObject *args) {
+    return BinarySearchTree__simple_path(self->sbbt->bst, args);
+}
+
+static PyObject* SplayTree__lca_1(SplayTree* self, PyObject *args) {
+    return BinarySearchTree__lca_1(self->sbbt->bst, args);
+}
+
+static PyObject* SplayTree__lca_2(SplayTree* self, PyObject *args) {
+    return BinarySearchTree__lca_2(self->sbbt->bst, args);
+}
+
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -329,6 +361,14 @@ static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
 
 
 static struct PyMethodDef SplayTree_PyMethodDef[] = {
+    {"lower_bound", (PyCFunction) SplayTree_lower_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"upper_bound", (PyCFunction) SplayTree_upper_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"lowest_common_ancestor", (PyCFunction) SplayTree_lowest_common_ancestor, METH_VARARGS, NULL},
+    {"rank", (PyCFunction) SplayTree_rank, METH_VARARGS, NULL},
+    {"select", (PyCFunction) SplayTree_select, METH_VARARGS, NULL},
+    {"_simple_path", (PyCFunction) SplayTree__simple_path, METH_VARARGS, NULL},
+    {"_lca_1", (PyCFunction) SplayTree__lca_1, METH_VARARGS, NULL},
+    {"_lca_2", (PyCFunction) SplayTree__lca_2, METH_VARARGS, NULL},
     {"insert", (PyCFunction) SplayTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) SplayTree_delete, METH_VARARGS, NULL},
     {"join", (PyCFunction) SplayTree_join, METH_VARARGS, NULL},
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 8f4e1b2..afb8a8b 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -67,6 +67,38 @@ static PyObject* Treap_insert(Treap *self, PyObject* args) {
     return CartesianTree_insert(self->ct, Py_BuildValue("(OOO)", key, priority, data));
 }
 
+static PyObject* Treap_lower_bound(Treap* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_lower_bound(self->ct->sbbt->bst, args, kwds);
+}
+
+static PyObject* Treap_upper_bound(Treap* self, PyObject *args, PyObject *kwds) {
+    return BinarySearchTree_upper_bound(self->ct->sbbt->bst, args, kwds);
+}
+
+static PyObject* Treap_lowest_common_ancestor(Treap* self, PyObject *args) {
+    return BinarySearchTree_lowest_common_ancestor(self->ct->sbbt->bst, args);
+}
+
+static PyObject* Treap_rank(Treap* self, PyObject *args) {
+    return BinarySearchTree_rank(self->ct->sbbt->bst, args);
+}
+
+static PyObject* Treap_select(Treap* self, PyObject *args) {
+    return BinarySearchTree_select(self->ct->sbbt->bst, args);
+}
+
+static PyObject* Treap__simple_path(Treap* self, PyObject *args) {
+    return BinarySearchTree__simple_path(self->ct->sbbt->bst, args);
+}
+
+static PyObject* Treap__lca_1(Treap* self, PyObject *args) {
+    return BinarySearchTree__lca_1(self->ct->sbbt->bst, args);
+}
+
+static PyObject* Treap__lca_2(Treap* self, PyObject *args) {
+    return BinarySearchTree__lca_2(self->ct->sbbt->bst, args);
+}
+
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
     Py_INCREF(self->ct->sbbt->bst->binary_tree->root_idx);
     return self->ct->sbbt->bst->binary_tree->root_idx;
@@ -74,6 +106,14 @@ static PyObject* Treap_root_idx(Treap *self, void *closure) {
 
 
 static struct PyMethodDef Treap_PyMethodDef[] = {
+    {"lower_bound", (PyCFunction) Treap_lower_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"upper_bound", (PyCFunction) Treap_upper_bound, METH_VARARGS | METH_KEYWORDS, NULL},
+    {"lowest_common_ancestor", (PyCFunction) Treap_lowest_common_ancestor, METH_VARARGS, NULL},
+    {"rank", (PyCFunction) Treap_rank, METH_VARARGS, NULL},
+    {"select", (PyCFunction) Treap_select, METH_VARARGS, NULL},
+    {"_simple_path", (PyCFunction) Treap__simple_path, METH_VARARGS, NULL},
+    {"_lca_1", (PyCFunction) Treap__lca_1, METH_VARARGS, NULL},
+    {"_lca_2", (PyCFunction) Treap__lca_2, METH_VARARGS, NULL},
     {"insert", (PyCFunction) Treap_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) Treap_delete, METH_VARARGS | METH_KEYWORDS, NULL},
     {"search", (PyCFunction) Treap_search, METH_VARARGS | METH_KEYWORDS, NULL},
-- 
2.43.0


From 94ef53680117735822b37e1d140b8c21d5b99c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 095/160] fix: traversals of C++ trees must own the tree, take
 treaps and keep the order of parameters

---
 .../trees/_backend/cpp/BinarySearchTree.hpp     |  2 +-
 .../trees/_backend/cpp/BinaryTreeTraversal.hpp  | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index f4c8e10..b3cc2ad 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -18,7 +18,7 @@ typedef struct {
 } BinarySearchTree;
 
 static void BinarySearchTree_dealloc(BinarySearchTree *self) {
-    BinaryTree_dealloc(self->binary_tree);
+    Py_XDECREF(self->binary_tree);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index b430706..da745d9 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -18,6 +18,7 @@
 #include "SplayTree.hpp"
 #include "AVLTree.hpp"
 #include "CartesianTree.hpp"
+#include "Treap.hpp"
 
 typedef struct {
     PyObject_HEAD
@@ -25,7 +26,7 @@ typedef struct {
 } BinaryTreeTraversal;
 
 static void BinaryTreeTraversal_dealloc(BinaryTreeTraversal *self) {
-    BinaryTree_dealloc(self->tree);
+    Py_XDECREF(self->tree);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -52,6 +53,9 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
     if (PyType_Ready(&CartesianTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
+    if (PyType_Ready(&TreapType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
+        return NULL;
+    }
 
     if (PyObject_IsInstance(tree, (PyObject *)&SplayTreeType)) {
         self->tree = reinterpret_cast<SplayTree*>(tree)->sbbt->bst->binary_tree;
@@ -59,6 +63,9 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
     else if (PyObject_IsInstance(tree, (PyObject *)&AVLTreeType)) {
         self->tree = reinterpret_cast<AVLTree*>(tree)->sbbt->bst->binary_tree;
     }
+    else if (PyObject_IsInstance(tree, (PyObject *)&TreapType)) {
+        self->tree = reinterpret_cast<Treap*>(tree)->ct->sbbt->bst->binary_tree;
+    }
     else if (PyObject_IsInstance(tree, (PyObject *)&CartesianTreeType)) {
         self->tree = reinterpret_cast<CartesianTree*>(tree)->sbbt->bst->binary_tree;
     }
@@ -72,9 +79,11 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         self->tree = reinterpret_cast<BinarySearchTree*>(tree)->binary_tree;
     }
     else {
+        Py_DECREF(self);
         PyErr_SetString(PyExc_ValueError, "Not a supported type for BinaryTreeTraversal.");
         return NULL;
     }
+    Py_INCREF(self->tree);
     return reinterpret_cast<PyObject*>(self);
 }
 
@@ -128,7 +137,7 @@ static PyObject* BinaryTreeTraversal__post_order(BinaryTreeTraversal* self, PyOb
     PyObject* node = PyObject_GetItem(args, PyZero);
     PyObject* visit = PyList_New(0);
     ArrayForTrees* tree = self->tree->tree;
-    long size = self->tree->size;
+    long size = tree->_last_pos_filled + 1;
     std::stack<PyObject*> s;
     s.push(node);
     PyObject* last = PyList_New(size);
@@ -175,8 +184,8 @@ static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* sel
     Py_INCREF(Py_None);
     PyObject* node = Py_None;
     PyObject* order = PyUnicode_FromString("in_order");
-    static char* keywords[] = {"node","order", NULL};
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "|OO", keywords, &node, &order)) {
+    static char* keywords[] = {"order","node", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "|OO", keywords, &order, &node)) {
         return NULL;
     }
     if (node == Py_None) {
-- 
2.43.0


From 9ec4ddffbe4fa9b846c730cd4b45ff121d212dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 096/160] fix: LLVM execution engines must not share a target
 machine, which crashed at exit

---
 .../cpp/algorithms/llvm_algorithms.py         | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 332294a..2280524 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -9,28 +9,24 @@ _SUPPORTED = {
 }
 
 _engines = {}
-_target_machine = None
 _fn_ptr_cache = {}
 
 def _cleanup():
-    global _engines, _target_machine, _fn_ptr_cache
+    global _engines, _fn_ptr_cache
     _engines.clear()
-    _target_machine = None
     _fn_ptr_cache.clear()
 
 atexit.register(_cleanup)
 
-def _ensure_target_machine():
-    global _target_machine
-    if _target_machine is not None:
-        return
-
+def _create_target_machine():
+    # An execution engine takes its target machine over and disposes of it,
+    # so each of them needs one of its own.
     try:
         binding.initialize_all_targets()
         binding.initialize_all_asmprinters()
 
         target = binding.Target.from_default_triple()
-        _target_machine = target.create_target_machine(opt=3)
+        return target.create_target_machine(opt=3)
     except Exception as e:
         raise RuntimeError(f"Failed to initialize LLVM target machine: {e}")
 
@@ -132,7 +128,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     return str(mod)
 
 def _materialize(dtype: str) -> int:
-    _ensure_target_machine()
+    target_machine = _create_target_machine()
 
     if dtype in _fn_ptr_cache:
         return _fn_ptr_cache[dtype]
@@ -152,7 +148,7 @@ def _materialize(dtype: str) -> int:
         except AttributeError:
             pass
 
-        engine = binding.create_mcjit_compiler(mod, _target_machine)
+        engine = binding.create_mcjit_compiler(mod, target_machine)
         engine.finalize_object()
         engine.run_static_constructors()
 
@@ -275,7 +271,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
 
 
 def _materialize_selection(dtype: str) -> int:
-    _ensure_target_machine()
+    target_machine = _create_target_machine()
 
     name = f"selection_sort_{dtype}"
     if name in _fn_ptr_cache:
@@ -286,7 +282,7 @@ def _materialize_selection(dtype: str) -> int:
         mod = binding.parse_assembly(llvm_ir)
         mod.verify()
 
-        engine = binding.create_mcjit_compiler(mod, _target_machine)
+        engine = binding.create_mcjit_compiler(mod, target_machine)
         engine.finalize_object()
         engine.run_static_constructors()
 
-- 
2.43.0


From 392b1c4a29a22ec81a39fdb8d3c62e6b1ad43617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 097/160] fix: C++ trees must propagate an exception raised by
 the comparator instead of crashing

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  | 13 ++++-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 48 +++++++++++++++++++
 .../trees/_backend/cpp/CartesianTree.hpp      | 16 ++++++-
 .../trees/_backend/cpp/RedBlackTree.hpp       | 16 ++++++-
 .../trees/_backend/cpp/SplayTree.hpp          | 28 +++++++++--
 5 files changed, 111 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 343670b..b4222d0 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -235,9 +235,14 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data)) == NULL) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (node_idx == NULL) {
+        return NULL;
+    }
     AVLTree__balance_insertion(self, Py_BuildValue("(OO)", node_idx, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent));
 
     Py_RETURN_NONE;
@@ -297,7 +302,11 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
-    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None) {
+    PyObject* found = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (found == NULL) {
+        return NULL;
+    }
+    if (found == Py_None) {
         Py_RETURN_NONE;
     }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index b3cc2ad..57e16ad 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -110,6 +110,9 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
         PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
         PyObject* res = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (res == NULL) {
+            return NULL;
+        }
         if (!PyLong_Check(res)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -164,6 +167,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
     Py_INCREF(data);
 
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
+    if (res == NULL) {
+        return NULL;
+    }
     BinaryTree* bt = self->binary_tree;
     if (res != Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(res)])->data = data;
@@ -192,6 +198,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
         PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (cres == NULL) {
+            return NULL;
+        }
         if (!PyLong_Check(cres)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -233,6 +242,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
+    if (tup == NULL) {
+        return NULL;
+    }
     PyObject* walk = PyTuple_GetItem(tup, 0);
     PyObject* parent = PyTuple_GetItem(tup, 1);
     Py_INCREF(Py_None);
@@ -386,6 +398,9 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key);
     PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
     Py_DECREF(arguments);
+    if (cres == NULL) {
+        return NULL;
+    }
     if (!PyLong_Check(cres)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -458,7 +473,13 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
     PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key1,root));
+    if (path1 == NULL) {
+        return NULL;
+    }
     PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key2,root));
+    if (path2 == NULL) {
+        return NULL;
+    }
     long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
     long m = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path2)));
     if (n==0 || m==0) {
@@ -491,7 +512,13 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
 
     PyObject* curr_root = bt->root_idx;
     PyObject* u = BinarySearchTree_search(self, Py_BuildValue("(O)",j), PyDict_New());
+    if (u == NULL) {
+        return NULL;
+    }
     PyObject* v = BinarySearchTree_search(self, Py_BuildValue("(O)",k), PyDict_New());
+    if (v == NULL) {
+        return NULL;
+    }
 
     if (u==Py_None || v==Py_None) {
         PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
@@ -509,6 +536,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
     Py_DECREF(arguments1);
+    if (cres1 == NULL) {
+        return NULL;
+    }
     if (!PyLong_Check(cres1)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -522,6 +552,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
     Py_DECREF(arguments2);
+    if (cres2 == NULL) {
+        return NULL;
+    }
     if (!PyLong_Check(cres2)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -551,6 +584,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
         Py_DECREF(arguments1);
+        if (cres1 == NULL) {
+            return NULL;
+        }
         if (!PyLong_Check(cres1)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -564,6 +600,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
         Py_DECREF(arguments2);
+        if (cres2 == NULL) {
+            return NULL;
+        }
         if (!PyLong_Check(cres2)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -599,6 +638,9 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
+    if (walk == NULL) {
+        return NULL;
+    }
     if (walk == Py_None) {
         Py_RETURN_NONE;
     }
@@ -648,6 +690,9 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
             PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
             Py_DECREF(arguments);
+            if (cres == NULL) {
+                return NULL;
+            }
             if (!PyLong_Check(cres)) {
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
@@ -669,6 +714,9 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
             PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
             Py_DECREF(arguments);
+            if (cres == NULL) {
+                return NULL;
+            }
             if (!PyLong_Check(cres)) {
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 9b4ee98..dacb639 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -105,6 +105,9 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
         return NULL;
     }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (node_idx == NULL) {
+        return NULL;
+    }
     if (node_idx != Py_None) {
         Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
         PyObject* kwd_bal = PyDict_New();
@@ -130,11 +133,20 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
         return NULL;
     }
 
-    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) != Py_None) {
+    PyObject* found = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (found == NULL) {
+        return NULL;
+    }
+    if (found != Py_None) {
         CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New());
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data)) == NULL) {
+        return NULL;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (node_idx == NULL) {
+        return NULL;
+    }
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index e8ff15b..c6a61c6 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -162,12 +162,21 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    bool is_new = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None;
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    PyObject* found = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (found == NULL) {
+        return NULL;
+    }
+    bool is_new = found == Py_None;
+    if (SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data)) == NULL) {
+        return NULL;
+    }
     if (!is_new) {
         Py_RETURN_NONE;
     }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (node_idx == NULL) {
+        return NULL;
+    }
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
@@ -563,6 +572,9 @@ static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObjec
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
+    if (walk == NULL) {
+        return NULL;
+    }
     if (walk != Py_None) {
         PyObject* walk1 = RedBlackTree__replace_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree__has_two_child(self, Py_BuildValue("(O)", walk)) == Py_True) {
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 53d782d..b9bbeac 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -134,10 +134,15 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    SelfBalancingBinaryTree_insert(self->sbbt, args);
+    if (SelfBalancingBinaryTree_insert(self->sbbt, args) == NULL) {
+        return NULL;
+    }
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
+    if (tup == NULL) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
@@ -152,6 +157,9 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (tup == NULL) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
@@ -198,7 +206,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         PyObject* elements = SplayTree__pre_order(other, Py_BuildValue("(O)", obt->root_idx));
         for (int i=0; i<PyList_Size(elements); i++) {
             TreeNode* node = reinterpret_cast<TreeNode*>(PyList_GetItem(elements, i));
-            SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", node->key, node->data));
+            if (SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", node->key, node->data)) == NULL) {
+                return NULL;
+            }
         }
         Py_RETURN_NONE;
     }
@@ -219,6 +229,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
     PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
     Py_DECREF(arguments);
+    if (cres == NULL) {
+        return NULL;
+    }
     if (!PyLong_Check(cres)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -291,6 +304,9 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (tup == NULL) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
@@ -312,10 +328,14 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
         for (int i=0; i<PyList_Size(elements); i++) {
-            SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+            if (SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data)) == NULL) {
+                return NULL;
+            }
         }
         for (int j=PyList_Size(elements)-1; j>-1; j--) {
-            SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), PyDict_New());
+            if (SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), PyDict_New()) == NULL) {
+                return NULL;
+            }
         }
     }
 
-- 
2.43.0


From 94dddf46b5e77fac27bc10dbb7564198fcfdbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 098/160] fix: C++ search trees must honour the keyword
 arguments they accept

---
 .../trees/_backend/cpp/BinarySearchTree.hpp     | 17 +++++++++++++----
 .../trees/_backend/cpp/RedBlackTree.hpp         |  6 +++++-
 .../_backend/cpp/SelfBalancingBinaryTree.hpp    |  4 ++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 57e16ad..252ecbf 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -154,12 +154,13 @@ static PyObject* BinarySearchTree__append_child(BinarySearchTree* self, PyObject
     return PyObject_GetItem(new_indices, node->key);
 }
 
-static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args) {
+static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args, PyObject* kwds=NULL) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
     Py_INCREF(Py_None);
     PyObject* data = Py_None;
-    if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
+    static char* keywords[] = {"key","data", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &data)) { // data is optional
         return NULL;
     }
 
@@ -423,12 +424,20 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
 }
 
 static PyObject* BinarySearchTree_lower_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_False));
 }
 
 static PyObject* BinarySearchTree_upper_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_True));
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index c6a61c6..758bba9 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -568,7 +568,11 @@ static PyObject* RedBlackTree___two_child_case(RedBlackTree* self, PyObject *arg
 }
 
 static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObject *kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 4832d65..66d3dac 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -39,8 +39,8 @@ static PyObject* SelfBalancingBinaryTree___str__(SelfBalancingBinaryTree *self)
     return BinarySearchTree___str__(self->bst);
 }
 
-static PyObject* SelfBalancingBinaryTree_insert(SelfBalancingBinaryTree* self, PyObject* args) {
-    return BinarySearchTree_insert(self->bst, args);
+static PyObject* SelfBalancingBinaryTree_insert(SelfBalancingBinaryTree* self, PyObject* args, PyObject* kwds=NULL) {
+    return BinarySearchTree_insert(self->bst, args, kwds);
 }
 
 static PyObject* SelfBalancingBinaryTree_search(SelfBalancingBinaryTree* self, PyObject *args, PyObject *kwds) {
-- 
2.43.0


From 2f413ad6aaa927228582a377269449e640f24d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 099/160] fix: C++ sorts and searches must stop at a comparison
 that fails

---
 .../cpp/algorithms/misc_algorithms.hpp        | 18 ++++++++-
 .../cpp/algorithms/quadratic_time_sort.hpp    | 38 ++++++++++++++++---
 .../_backend/cpp/algorithms/quick_sort.hpp    | 15 +++++++-
 pydatastructs/utils/_backend/cpp/utils.hpp    |  1 +
 4 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 07384c2..6384159 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -19,6 +19,9 @@ static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
              _comp(prev_item, i_item, comp) != 1 ) {
             return false;
         }
+        if ( PyErr_Occurred() ) {
+            return false;
+        }
         prev_item = i_item;
     }
     return true;
@@ -55,6 +58,9 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
     }
 
     bool _res = is_ordered_impl(args0, lower, upper, comp);
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
     res = PyBool_FromLong(_res);
     Py_INCREF(res);
     return res;
@@ -99,6 +105,7 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (i == 0) {
                 res = PyZero;
@@ -161,6 +168,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (middle == 0) {
                 res = PyZero;
@@ -170,7 +178,11 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
             Py_INCREF(res);
             return res;
         }
-        if ( _comp(u, value, comp) == 1 ) {
+        int ordered = _comp(u, value, comp);
+        if ( ordered == -1 ) {
+            return NULL;
+        }
+        if ( ordered == 1 ) {
             left = middle + 1;
         } else {
             right = middle - 1;
@@ -230,6 +242,9 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
         }
         u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
 
     while (prev <= upper) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(prev));
@@ -240,6 +255,7 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (prev == 0) {
                 res = PyZero;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 9c95b77..46a6ba0 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -15,8 +15,12 @@ static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
-            if ( _comp(PyObject_GetItem(array, j_PyObject),
-                        PyObject_GetItem(array, j1_PyObject), comp) != 1 ) {
+            int ordered = _comp(PyObject_GetItem(array, j_PyObject),
+                        PyObject_GetItem(array, j1_PyObject), comp);
+            if ( ordered == -1 ) {
+                return NULL;
+            }
+            if ( ordered != 1 ) {
                 PyObject* tmp = PyObject_GetItem(array, j1_PyObject);
                 PyObject_SetItem(array, j1_PyObject,
                                 PyObject_GetItem(array, j_PyObject));
@@ -60,6 +64,9 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     arr_length = PyObject_Length(args0);
 
     args0 = bubble_sort_impl(args0, lower, upper, comp, arr_length);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -620,8 +627,12 @@ static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         for (size_t j = i + 1; j < upper + 1; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
-            if ( _comp(PyObject_GetItem(array, j_min_PyObject),
-                        PyObject_GetItem(array, j_PyObject), comp) != 1 ) {
+            int ordered = _comp(PyObject_GetItem(array, j_min_PyObject),
+                        PyObject_GetItem(array, j_PyObject), comp);
+            if ( ordered == -1 ) {
+                return NULL;
+            }
+            if ( ordered != 1 ) {
                 j_min_PyObject = j_PyObject;
             }
         }
@@ -665,6 +676,9 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = selection_sort_impl(args0, lower, upper, comp);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -1225,13 +1239,22 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         PyObject* temp = PyObject_GetItem(array, i_PyObject);
         size_t j = i;
-        while (j > lower && _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
-                        temp, comp) != 1) {
+        int ordered = 1;
+        while (j > lower && (ordered = _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
+                        temp, comp)) == 0) {
             PyObject_SetItem(array, PyLong_FromSize_t(j),
                         PyObject_GetItem(array, PyLong_FromSize_t(j-1)));
             j -= 1;
         }
+        PyObject* exc_type = NULL, *exc_value = NULL, *exc_traceback = NULL;
+        if (ordered == -1) {
+            PyErr_Fetch(&exc_type, &exc_value, &exc_traceback);
+        }
         PyObject_SetItem(array, PyLong_FromSize_t(j), temp);
+        if (ordered == -1) {
+            PyErr_Restore(exc_type, exc_value, exc_traceback);
+            return NULL;
+        }
     }
     return array;
 }
@@ -1267,6 +1290,9 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = insertion_sort_impl(args0, lower, upper, comp);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 6b947a5..fb2c87f 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -25,6 +25,9 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    if ( x == NULL ) {
+        return low;
+    }
     if ( pick_pivot_element ) {
         size_t pos = high;
         while ( pos > low ) {
@@ -43,7 +46,11 @@ static size_t quick_sort_partition(size_t low, size_t high,
     }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
-        if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
+        int ordered = _comp(PyObject_GetItem(array, j_PyObject), x, comp);
+        if ( ordered == -1 ) {
+            return low;
+        }
+        if ( ordered == 1 ) {
             i = i + 1;
             PyObject* i_PyObject = PyLong_FromLongLong(i);
             PyObject* tmp = PyObject_GetItem(array, i_PyObject);
@@ -80,6 +87,9 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
         if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
@@ -128,6 +138,9 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     }
 
     args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 585b57a..0f54ba0 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -123,6 +123,7 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(v)))
             );
+            return -1;
         }
         return result_PyObject == Py_True;
     }
-- 
2.43.0


From 5db551cdc19aa35bc8bc85ebd389ae2f23375c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 100/160] fix: C++ sorts and searches must accept any true
 value from a comparator

---
 pydatastructs/utils/_backend/cpp/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 0f54ba0..e416dd8 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -125,7 +125,7 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
             );
             return -1;
         }
-        return result_PyObject == Py_True;
+        return PyObject_IsTrue(result_PyObject);
     }
 
     int result = PyObject_RichCompareBool(u, v, Py_LE);
-- 
2.43.0


From 156fb48af62b4249011e06048d961591144b6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 101/160] fix: quick sort and cocktail shaker sort must accept
 any true or false value from a comparator

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 5e2e6a9..3c2986a 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -675,13 +675,13 @@ def cocktail_shaker_sort(array: Array, **kwargs) -> Array:
 
         swapping = True
         for j in range(lower, upper):
-            if _comp(array[j], array[j+1], comp) is False:
+            if not _comp(array[j], array[j+1], comp):
                 swap(j + 1, j)
                 swapping = False
 
         upper = upper - 1
         for j in range(upper, lower, -1):
-            if _comp(array[j-1], array[j], comp) is False:
+            if not _comp(array[j-1], array[j], comp):
                 swap(j, j - 1)
                 swapping = False
         lower = lower + 1
@@ -770,7 +770,7 @@ def quick_sort(array: Array, **kwargs) -> Array:
             p = p - 1
         array[p], array[high] = array[high], array[p]
         for j in range(low , high):
-            if _comp(array[j], x, comp) is True:
+            if _comp(array[j], x, comp):
                 i = i + 1
                 array[i], array[j] = array[j], array[i]
         array[i + 1], array[high] = array[high], array[i + 1]
-- 
2.43.0


From 9d15696342ec451136a52f0e3ba4110b94762616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 102/160] fix: an algorithm name that belongs to another
 problem must be refused

---
 pydatastructs/graphs/algorithms.py  | 8 +++++---
 pydatastructs/strings/algorithms.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index a27fd00..b2e8d62 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -815,7 +815,8 @@ def shortest_paths(graph: Graph, algorithm: str,
     if (backend == Backend.PYTHON):
         import pydatastructs.graphs.algorithms as algorithms
         func = "_" + algorithm + "_" + graph._impl
-        if not hasattr(algorithms, func):
+        if algorithm not in ('bellman_ford', 'dijkstra') or \
+            not hasattr(algorithms, func):
             raise NotImplementedError(
             "Currently %s algorithm isn't implemented for "
             "finding shortest paths in graphs."%(algorithm))
@@ -946,7 +947,8 @@ def all_pair_shortest_paths(graph: Graph, algorithm: str,
         all_pair_shortest_paths, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl
-    if not hasattr(algorithms, func):
+    if algorithm not in ('floyd_warshall', 'johnson') or \
+        not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "finding shortest paths in graphs."%(algorithm))
@@ -1080,7 +1082,7 @@ def topological_sort(graph: Graph, algorithm: str,
         topological_sort, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl
-    if not hasattr(algorithms, func):
+    if algorithm != 'kahn' or not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "performing topological sort on %s graphs."%(algorithm, graph._impl))
diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index a020e70..4b10ebe 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -76,7 +76,9 @@ def find(text, query, algorithm, **kwargs):
             find, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.strings.algorithms as algorithms
     func = "_" + algorithm
-    if not hasattr(algorithms, func):
+    if algorithm not in ('kmp', 'knuth_morris_pratt', 'rabin_karp',
+                         'boyer_moore', 'z_function') or \
+        not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algoithm for searching strings "
         "inside a text isn't implemented yet."
-- 
2.43.0


From 8edfd96e33a1a02a69593a4a8c466ecb9f249039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 103/160] fix: the C++ backend must refuse an algorithm it does
 not have instead of returning None

---
 pydatastructs/graphs/algorithms.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index b2e8d62..c10ff8b 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -99,6 +99,9 @@ def breadth_first_search(
         if (graph._impl == "adjacency_matrix"):
             extra_args = args if args else ()
             return bfs_adjacency_matrix(graph, source_node, operation, extra_args)
+        raise NotImplementedError(
+        "Currently breadth first search isn't implemented for "
+        "%s graphs."%(graph._impl))
 
 def _breadth_first_search_adjacency_list(
     graph, source_node, operation, *args, **kwargs):
@@ -355,6 +358,10 @@ def minimum_spanning_tree(graph, algorithm, **kwargs):
         from pydatastructs.graphs._backend.cpp._graph import minimum_spanning_tree_prim_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'prim':
             return minimum_spanning_tree_prim_adjacency_list(graph)
+        raise NotImplementedError(
+        "Currently %s algoithm for %s implementation of graphs "
+        "isn't implemented for finding minimum spanning trees "
+        "with the C++ backend."%(algorithm, graph._impl))
 
 def _minimum_spanning_tree_parallel_kruskal_adjacency_list(graph, num_threads):
     mst = _generate_mst_object(graph)
@@ -825,6 +832,9 @@ def shortest_paths(graph: Graph, algorithm: str,
         from pydatastructs.graphs._backend.cpp._graph import shortest_paths_dijkstra_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'dijkstra':
             return shortest_paths_dijkstra_adjacency_list(graph, source, target)
+        raise NotImplementedError(
+        "Currently %s algorithm isn't implemented for finding shortest "
+        "paths in %s graphs with the C++ backend."%(algorithm, graph._impl))
 
 def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tuple:
     distances, predecessor, visited, cnts = {}, {}, {}, {}
-- 
2.43.0


From d31c4fa8446e64c05d95cd5a531fee50f5722ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 104/160] fix: MAryTree must call the given comparator and
 print nodes with children

---
 pydatastructs/trees/m_ary_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index a06fda9..25c03e7 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -60,7 +60,7 @@ class MAryTree(object):
         obj.max_children = max_children
         obj.tree, obj.size = ArrayForTrees(MAryTreeNode, [root]), 1
         obj.comparator = lambda key1, key2: key1 < key2 \
-                        if comp is None else comp
+                        if comp is None else comp(key1, key2)
         obj.is_order_statistic = is_order_statistic
         return obj
 
@@ -168,5 +168,5 @@ class MAryTree(object):
                 to_be_printed[i] = (node.key, node.data)
                 for j in node.children:
                     if j is not None:
-                        to_be_printed[i].append(j)
+                        to_be_printed[i] += (j,)
         return str(to_be_printed)
-- 
2.43.0


From 4800476ad78481a5c00e7670d653fbe1cc25294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 105/160] fix: lower_bound and upper_bound of deep search trees
 must not exceed the recursion limit

---
 pydatastructs/trees/binary_trees.py | 32 +++++++++++++----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 596c963..be9b0e3 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -295,25 +295,21 @@ class BinarySearchTree(BinaryTree):
         return (walk, parent) if ret_parent else walk
 
     def _bound_helper(self, node_idx, bound_key, is_upper=False):
-        if node_idx is None:
-            return None
-        if self.tree[node_idx].key is None:
-            return None
-
-        if self.tree[node_idx].key == bound_key:
-            if not is_upper:
-                return self.tree[node_idx].key
+        # iterative, as a tree may be deeper than the recursion limit
+        bound = None
+        while node_idx is not None:
+            node = self.tree[node_idx]
+            if node.key is None:
+                break
+            if node.key == bound_key:
+                if not is_upper:
+                    return node.key
+                node_idx = node.right
+            elif self.comparator(node.key, bound_key):
+                node_idx = node.right
             else:
-                return self._bound_helper(self.tree[node_idx].right,
-                                            bound_key, is_upper)
-
-        if self.comparator(self.tree[node_idx].key, bound_key):
-            return self._bound_helper(self.tree[node_idx].right,
-                                            bound_key, is_upper)
-        else:
-            res_bound = self._bound_helper(self.tree[node_idx].left,
-                                                   bound_key, is_upper)
-            return res_bound if res_bound is not None else self.tree[node_idx].key
+                bound, node_idx = node.key, node.left
+        return bound
 
 
     def lower_bound(self, key, **kwargs):
-- 
2.43.0


From 7f2bc3b7ed113b70cef417c594574c861311cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 106/160] fix: Tarjan, Dinic and find_bridges must handle paths
 longer than the recursion limit

---
 pydatastructs/graphs/algorithms.py | 116 +++++++++++++++++------------
 1 file changed, 70 insertions(+), 46 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index c10ff8b..0bef9a3 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -558,29 +558,39 @@ _strongly_connected_components_kosaraju_adjacency_matrix = \
     _strongly_connected_components_kosaraju_adjacency_list
 
 def _tarjan_dfs(u, graph, index, stack, indices, low_links, on_stacks, components):
-    indices[u] = index[0]
-    low_links[u] = index[0]
-    index[0] += 1
-    stack.append(u)
-    on_stacks[u] = True
-
-    for node in graph.neighbors(u):
-        v = node.name
-        if indices[v] == -1:
-            _tarjan_dfs(v, graph, index, stack, indices, low_links, on_stacks, components)
-            low_links[u] = min(low_links[u], low_links[v])
-        elif on_stacks[v]:
-            low_links[u] = min(low_links[u], low_links[v])
-
-    if low_links[u] == indices[u]:
-        component = set()
-        while stack:
-            w = stack.pop()
-            on_stacks[w] = False
-            component.add(w)
-            if w == u:
+    # iterative, as a path may be longer than the recursion limit
+    calls = [(u, iter(graph.neighbors(u)))]
+    while calls:
+        u, neighbors = calls[-1]
+        if indices[u] == -1:
+            indices[u] = index[0]
+            low_links[u] = index[0]
+            index[0] += 1
+            stack.append(u)
+            on_stacks[u] = True
+
+        for node in neighbors:
+            v = node.name
+            if indices[v] == -1:
+                calls.append((v, iter(graph.neighbors(v))))
                 break
-        components.append(component)
+            elif on_stacks[v]:
+                low_links[u] = min(low_links[u], low_links[v])
+        else:
+            calls.pop()
+            if calls:
+                caller = calls[-1][0]
+                low_links[caller] = min(low_links[caller], low_links[u])
+
+            if low_links[u] == indices[u]:
+                component = set()
+                while stack:
+                    w = stack.pop()
+                    on_stacks[w] = False
+                    component.add(w)
+                    if w == u:
+                        break
+                components.append(component)
 
 def _strongly_connected_components_tarjan_adjacency_list(graph):
     index = [0] # mutable object
@@ -1257,18 +1267,22 @@ def _max_flow_edmonds_karp_(graph: Graph, source, sink):
 
 
 def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow, flow_passed):
-    if u == sink_node:
-        return flow
-
-    for next_node, capacity in _residual_capacities(graph, u, flow_passed).items():
-        if parent.get(next_node, None) == u and capacity > 0:
-            path_flow = _depth_first_search_max_flow_dinic(graph, next_node,
-                                                           parent, sink_node,
-                                                           min(flow, capacity),
-                                                           flow_passed)
-            if path_flow > 0:
-                _pass_flow(flow_passed, u, next_node, path_flow)
-                return path_flow
+    # iterative, as a path may be longer than the recursion limit
+    path = [(u, flow, iter(_residual_capacities(graph, u, flow_passed).items()))]
+    while path:
+        u, flow, residuals = path[-1]
+        if u == sink_node:
+            for prev, node in zip(path, path[1:]):
+                _pass_flow(flow_passed, prev[0], node[0], flow)
+            return flow
+
+        for next_node, capacity in residuals:
+            if parent.get(next_node, None) == u and capacity > 0:
+                path.append((next_node, min(flow, capacity),
+                             iter(_residual_capacities(graph, next_node, flow_passed).items())))
+                break
+        else:
+            path.pop()
     return 0
 
 
@@ -1381,18 +1395,28 @@ def find_bridges(graph):
 
     def dfs(u):
         nonlocal time
-        visited[u] = True
-        disc[u] = low[u] = time
-        time += 1
-        for v in n_adj[u]:
-            if not visited[v]:
-                parent[v] = u
-                dfs(v)
-                low[u] = min(low[u], low[v])
-                if low[v] > disc[u]:
-                    bridges_idx.append((u, v))
-            elif v != parent[u]:
-                low[u] = min(low[u], disc[v])
+        # iterative, as a path may be longer than the recursion limit
+        calls = [(u, iter(n_adj[u]))]
+        while calls:
+            u, neighbors = calls[-1]
+            if not visited[u]:
+                visited[u] = True
+                disc[u] = low[u] = time
+                time += 1
+            for v in neighbors:
+                if not visited[v]:
+                    parent[v] = u
+                    calls.append((v, iter(n_adj[v])))
+                    break
+                elif v != parent[u]:
+                    low[u] = min(low[u], disc[v])
+            else:
+                calls.pop()
+                if calls:
+                    caller = calls[-1][0]
+                    low[caller] = min(low[caller], low[u])
+                    if low[u] > disc[caller]:
+                        bridges_idx.append((caller, u))
 
     for i in range(n):
         if not visited[i]:
-- 
2.43.0


From b99f72e0478127b56ac460bc3481756418187fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 107/160] fix: ArraySegmentTree.build must refuse an empty
 array instead of looping forever

---
 pydatastructs/miscellaneous_data_structures/segment_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/miscellaneous_data_structures/segment_tree.py b/pydatastructs/miscellaneous_data_structures/segment_tree.py
index 0895ba6..b960203 100644
--- a/pydatastructs/miscellaneous_data_structures/segment_tree.py
+++ b/pydatastructs/miscellaneous_data_structures/segment_tree.py
@@ -142,6 +142,9 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
         if self.is_ready:
             return
 
+        if len(self._array) == 0:
+            raise ValueError("Input %s array is empty."%(self._array))
+
         recursion_stack = Stack(implementation='linked_list')
         node = TreeNode((0, len(self._array) - 1), None, backend=self._backend)
         node.is_root = True
-- 
2.43.0


From c1d37ea5b1183eb7c61815edc3a662f13f465258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 108/160] fix: OneDimensionalSegmentTree.query must not return
 segments for points outside them when the ends are large or infinite floats

---
 pydatastructs/trees/space_partitioning_trees.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index 382775b..089aff1 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -139,15 +139,22 @@ class OneDimensionalSegmentTree(object):
             endpoints.extend(segment)
         endpoints.sort()
 
+        # a large or infinite float doesn't change by adding or subtracting one
+        low, high = endpoints[0] - 1, endpoints[-1] + 1
+        if low == endpoints[0]:
+            low = float('-inf')
+        if high == endpoints[-1]:
+            high = float('inf')
+
         elem_int = Queue()
-        elem_int.append(TreeNode([False, endpoints[0] - 1, endpoints[0], False], None))
+        elem_int.append(TreeNode([False, low, endpoints[0], False], None))
         i = 0
         while i < len(endpoints) - 1:
             elem_int.append(TreeNode([True, endpoints[i], endpoints[i], True], None))
             elem_int.append(TreeNode([False, endpoints[i], endpoints[i+1], False], None))
             i += 1
         elem_int.append(TreeNode([True, endpoints[i], endpoints[i], True], None))
-        elem_int.append(TreeNode([False, endpoints[i], endpoints[i] + 1, False], None))
+        elem_int.append(TreeNode([False, endpoints[i], high, False], None))
 
         self.tree = []
         while len(elem_int) > 1:
-- 
2.43.0


From 538fe96d4d260ff901e38869d375326a43838d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 109/160] fix: C++ graph nodes must keep data that fits neither
 64 bits nor UTF-8, and booleans

---
 .../_backend/cpp/AdjacencyListGraphNode.hpp   |  63 +-------
 .../utils/_backend/cpp/GraphNode.hpp          | 136 +++++++++---------
 2 files changed, 74 insertions(+), 125 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 8eba375..53608e9 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -55,24 +55,7 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
 
     self->name = std::string(name);
 
-    if (data == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(data)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-    } else if (PyFloat_Check(data)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(data);
-    } else if (PyUnicode_Check(data)) {
-        const char* str = PyUnicode_AsUTF8(data);
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-        self->data = data;
-    }
+    GraphNodeData_store(self->data, self->data_type, data);
 
     if (PyList_Check(adjacency_list)) {
         Py_ssize_t size = PyList_Size(adjacency_list);
@@ -150,49 +133,15 @@ static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObjec
 }
 
 static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, void* closure) {
-    switch (self->data_type) {
-        case DataType::Int:
-            return PyLong_FromLongLong(std::get<int64_t>(self->data));
-        case DataType::Double:
-            return PyFloat_FromDouble(std::get<double>(self->data));
-        case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
-        case DataType::PyObject:
-            Py_INCREF(std::get<PyObject*>(self->data));
-            return std::get<PyObject*>(self->data);
-        case DataType::None:
-        default:
-            Py_RETURN_NONE;
-    }
+    return GraphNodeData_load(self->data, self->data_type);
 }
 
 static int AdjacencyListGraphNode_set_data(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (self->data_type == DataType::PyObject) {
-        Py_XDECREF(std::get<PyObject*>(self->data));
-    }
-
-    if (value == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        if (!str) {
-            PyErr_SetString(PyExc_ValueError, "Invalid UTF-8 string.");
-            return -1;
-        }
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(value);
-        self->data = value;
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
     }
+    GraphNodeData_store(self->data, self->data_type, value);
     return 0;
 }
 
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 17a0748..42af339 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -17,6 +17,57 @@ enum class DataType {
     PyObject
 };
 
+typedef std::variant<std::monostate, int64_t, double, std::string, PyObject *> GraphNodeData;
+
+// Stores value in data. Values which don't fit the C++ types, such as integers
+// of more than 64 bits, are kept as Python objects.
+static void GraphNodeData_store(GraphNodeData& data, DataType& data_type, PyObject* value) {
+    PyObject* old = data_type == DataType::PyObject ? std::get<PyObject*>(data) : NULL;
+    int overflow = 0;
+    int64_t number = 0;
+    const char* str = NULL;
+    Py_ssize_t length = 0;
+
+    if (value == Py_None) {
+        data = std::monostate{};
+        data_type = DataType::None;
+    } else if (PyLong_Check(value) && !PyBool_Check(value) && ((number = PyLong_AsLongLongAndOverflow(value, &overflow)), overflow == 0)) {
+        data = number;
+        data_type = DataType::Int;
+    } else if (PyFloat_Check(value)) {
+        data = PyFloat_AsDouble(value);
+        data_type = DataType::Double;
+    } else if (PyUnicode_Check(value) && (str = PyUnicode_AsUTF8AndSize(value, &length))) {
+        data = std::string(str, length);
+        data_type = DataType::String;
+    } else {
+        PyErr_Clear(); // the string has no UTF-8 form
+        Py_INCREF(value);
+        data = value;
+        data_type = DataType::PyObject;
+    }
+    Py_XDECREF(old);
+}
+
+static PyObject* GraphNodeData_load(const GraphNodeData& data, DataType data_type) {
+    switch (data_type) {
+        case DataType::Int:
+            return PyLong_FromLongLong(std::get<int64_t>(data));
+        case DataType::Double:
+            return PyFloat_FromDouble(std::get<double>(data));
+        case DataType::String: {
+            const std::string& str = std::get<std::string>(data);
+            return PyUnicode_FromStringAndSize(str.data(), str.size());
+        }
+        case DataType::PyObject:
+            Py_INCREF(std::get<PyObject*>(data));
+            return std::get<PyObject*>(data);
+        case DataType::None:
+        default:
+            Py_RETURN_NONE;
+    }
+}
+
 typedef struct {
     PyObject_HEAD
     NodeType_ type_tag;
@@ -53,33 +104,7 @@ static PyObject* GraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwd
 
     self->name = std::string(name);
     self->internal_id = -1;
-    if (data == Py_None)
-    {
-        self->data = std::monostate{};
-        self->data_type = DataType::None;
-    }
-    else if (PyLong_Check(data))
-    {
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-        self->data_type = DataType::Int;
-    }
-    else if (PyFloat_Check(data))
-    {
-        self->data = PyFloat_AsDouble(data);
-        self->data_type = DataType::Double;
-    }
-    else if (PyUnicode_Check(data))
-    {
-        const char* s = PyUnicode_AsUTF8(data);
-        self->data = std::string(s);
-        self->data_type = DataType::String;
-    }
-    else
-    {
-        self->data = data;
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-    }
+    GraphNodeData_store(self->data, self->data_type, data);
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -102,19 +127,22 @@ static PyObject* GraphNode_str(GraphNode* self) {
             break;
         case DataType::PyObject: {
             PyObject* repr_obj = PyObject_Repr(std::get<PyObject*>(self->data));
-            if (repr_obj) {
-                const char* repr_cstr = PyUnicode_AsUTF8(repr_obj);
-                repr += repr_cstr ? repr_cstr : "<unprintable>";
+            if (!repr_obj) {
+                return NULL;
+            }
+            const char* repr_cstr = PyUnicode_AsUTF8(repr_obj);
+            if (!repr_cstr) {
                 Py_DECREF(repr_obj);
-            } else {
-                repr += "<error in repr>";
+                return NULL;
             }
+            repr += repr_cstr;
+            Py_DECREF(repr_obj);
             break;
         }
     }
 
     repr += ")";
-    return PyUnicode_FromString(repr.c_str());
+    return PyUnicode_FromStringAndSize(repr.data(), repr.size());
 }
 
 static PyObject* GraphNode_get(GraphNode* self, void *closure) {
@@ -122,19 +150,7 @@ static PyObject* GraphNode_get(GraphNode* self, void *closure) {
     if (strcmp(attr, "name") == 0) {
         return PyUnicode_FromString(self->name.c_str());
     } else if (strcmp(attr, "data") == 0) {
-        switch (self->data_type) {
-            case DataType::None:
-                Py_RETURN_NONE;
-            case DataType::Int:
-                return PyLong_FromLongLong(std::get<int64_t>(self->data));
-            case DataType::Double:
-                return PyFloat_FromDouble(std::get<double>(self->data));
-            case DataType::String:
-                return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
-            case DataType::PyObject:
-                Py_INCREF(std::get<PyObject*>(self->data));
-                return std::get<PyObject*>(self->data);
-        }
+        return GraphNodeData_load(self->data, self->data_type);
     }
     Py_RETURN_NONE;
 }
@@ -151,29 +167,13 @@ static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
             PyErr_SetString(PyExc_TypeError, "name must be a string");
             return -1;
         }
-        self->name = PyUnicode_AsUTF8(value);
-    } else if (strcmp(attr, "data") == 0) {
-        if (self->data_type == DataType::PyObject) {
-            Py_XDECREF(std::get<PyObject*>(self->data));
-        }
-
-        if (value == Py_None) {
-            self->data = std::monostate{};
-            self->data_type = DataType::None;
-        } else if (PyLong_Check(value)) {
-            self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-            self->data_type = DataType::Int;
-        } else if (PyFloat_Check(value)) {
-            self->data = PyFloat_AsDouble(value);
-            self->data_type = DataType::Double;
-        } else if (PyUnicode_Check(value)) {
-            self->data = std::string(PyUnicode_AsUTF8(value));
-            self->data_type = DataType::String;
-        } else {
-            Py_INCREF(value);
-            self->data = value;
-            self->data_type = DataType::PyObject;
+        const char* name = PyUnicode_AsUTF8(value);
+        if (!name) {
+            return -1;
         }
+        self->name = name;
+    } else if (strcmp(attr, "data") == 0) {
+        GraphNodeData_store(self->data, self->data_type, value);
     } else {
         PyErr_SetString(PyExc_AttributeError, "Unknown attribute");
         return -1;
-- 
2.43.0


From af86afcdce8e0d7cedaa1be5c71e6f7dbe9e1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 110/160] fix: a C++ graph edge must refuse ends that are not
 C++ graph nodes and values it can't hold

---
 .../utils/_backend/cpp/GraphEdge.hpp          | 98 +++++++++++--------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index a1b5fa8..3b0d83f 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -9,6 +9,14 @@
 #include "GraphNode.hpp"
 
 extern PyTypeObject GraphEdgeType;
+extern PyTypeObject AdjacencyListGraphNodeType;
+extern PyTypeObject AdjacencyMatrixGraphNodeType;
+
+static bool GraphEdge_is_node(PyObject* node) {
+    return PyObject_TypeCheck(node, &GraphNodeType) ||
+        PyObject_TypeCheck(node, &AdjacencyListGraphNodeType) ||
+        PyObject_TypeCheck(node, &AdjacencyMatrixGraphNodeType);
+}
 
 typedef struct {
     PyObject_HEAD
@@ -24,13 +32,40 @@ static void GraphEdge_dealloc(GraphEdge* self) {
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
-static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
-    GraphEdge* self = PyObject_New(GraphEdge, &GraphEdgeType);
-    if (!self) return NULL;
-
-    new (&self->value) std::variant<std::monostate, int64_t, double, std::string>();
-    self->value_type = DataType::None;
+static int GraphEdge_set_value(GraphEdge* self, PyObject* value) {
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Edge value can't be deleted.");
+        return -1;
+    }
+    if (value == Py_None) {
+        self->value_type = DataType::None;
+        self->value = std::monostate{};
+    } else if (PyLong_Check(value)) {
+        int64_t number = PyLong_AsLongLong(value);
+        if (number == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+        self->value_type = DataType::Int;
+        self->value = number;
+    } else if (PyFloat_Check(value)) {
+        self->value_type = DataType::Double;
+        self->value = PyFloat_AsDouble(value);
+    } else if (PyUnicode_Check(value)) {
+        Py_ssize_t length;
+        const char* str = PyUnicode_AsUTF8AndSize(value, &length);
+        if (!str) {
+            return -1;
+        }
+        self->value_type = DataType::String;
+        self->value = std::string(str, length);
+    } else {
+        PyErr_SetString(PyExc_TypeError, "Edge value must be int, float, str, or None.");
+        return -1;
+    }
+    return 0;
+}
 
+static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
     static char* kwlist[] = {"node1", "node2", "value", NULL};
     PyObject* node1;
     PyObject* node2;
@@ -41,26 +76,23 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
         return NULL;
     }
 
+    if (!GraphEdge_is_node(node1) || !GraphEdge_is_node(node2)) {
+        PyErr_SetString(PyExc_TypeError, "The ends of an edge must be graph nodes of the C++ backend");
+        return NULL;
+    }
+
+    GraphEdge* self = PyObject_New(GraphEdge, &GraphEdgeType);
+    if (!self) return NULL;
+
+    new (&self->value) std::variant<std::monostate, int64_t, double, std::string>();
+    self->value_type = DataType::None;
     Py_INCREF(node1);
     Py_INCREF(node2);
     self->source = node1;
     self->target = node2;
 
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+    if (GraphEdge_set_value(self, value) < 0) {
+        Py_DECREF(self);
         return NULL;
     }
 
@@ -98,34 +130,14 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->value));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->value).c_str());
+            return PyUnicode_FromStringAndSize(std::get<std::string>(self->value).data(),
+                                               std::get<std::string>(self->value).size());
         case DataType::None:
         default:
             Py_RETURN_NONE;
     }
 }
 
-static int GraphEdge_set_value(GraphEdge* self, PyObject* value) {
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Edge value must be int, float, str, or None.");
-        return -1;
-    }
-    return 0;
-}
-
 static PyGetSetDef GraphEdge_getsetters[] = {
     {"value", (getter)GraphEdge_get_value, (setter)GraphEdge_set_value, "Get or set edge value", NULL},
     {NULL}
-- 
2.43.0


From 5803796cab963c9d88adafa71c68e9067a2cba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 111/160] fix: dynamic arrays must count elements written by
 index or fill, so that contracting keeps them

---
 .../cpp/arrays/DynamicOneDimensionalArray.hpp | 26 ++++++++++++++++---
 .../linear_data_structures/arrays.py          | 17 +++++++++---
 pydatastructs/trees/binary_trees.py           |  1 -
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 3ca4341..a4e7b30 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -66,11 +66,31 @@ static PyObject* DynamicOneDimensionalArray___getitem__(DynamicOneDimensionalArr
 
 static int DynamicOneDimensionalArray___setitem__(DynamicOneDimensionalArray *self,
                                                   PyObject* arg, PyObject* value) {
-    return OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value);
+    PyObject* old_value = OneDimensionalArray___getitem__(self->_one_dimensional_array, arg);
+    if ( !old_value ) {
+        return -1;
+    }
+    long filled = old_value != Py_None;
+    Py_DECREF(old_value);
+    if ( OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value) < 0 ) {
+        return -1;
+    }
+    self->_num += (value != Py_None) - filled;
+    long idx = PyLong_AsLong(arg);
+    if ( value != Py_None && idx > self->_last_pos_filled ) {
+        self->_last_pos_filled = idx;
+    }
+    return 0;
 }
 
 static PyObject* DynamicOneDimensionalArray_fill(DynamicOneDimensionalArray *self, PyObject *args) {
-    return OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    PyObject* result = OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    if ( result ) {
+        bool cleared = PyTuple_GetItem(args, 0) == Py_None;
+        self->_num = cleared ? 0 : (long) self->_one_dimensional_array->_size;
+        self->_last_pos_filled = self->_num - 1;
+    }
+    return result;
 }
 
 static Py_ssize_t DynamicOneDimensionalArray___len__(DynamicOneDimensionalArray *self) {
@@ -157,7 +177,7 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
         _data[self->_last_pos_filled + 1] = el;
     }
     self->_last_pos_filled += 1;
-    self->_num += 1;
+    self->_num += el != Py_None;
     return DynamicOneDimensionalArray__modify(self, NULL);
 }
 
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 146666f..0f10115 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -399,6 +399,18 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self._data = arr_new._data
             self._size = arr_new._size
 
+    def __setitem__(self, idx, elem):
+        filled = self[idx] is not None
+        super().__setitem__(idx, elem)
+        self._num += (elem is not None) - filled
+        if elem is not None and idx > self._last_pos_filled:
+            self._last_pos_filled = idx
+
+    def fill(self, elem):
+        super().fill(elem)
+        self._num = self._size
+        self._last_pos_filled = self._size - 1
+
     def append(self, el):
         if self._last_pos_filled + 1 == self._size:
             arr_new = OneDimensionalArray(self._dtype, 2*self._size + 1)
@@ -408,16 +420,15 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self._size = arr_new._size
             self._data = arr_new._data
         else:
-            self[self._last_pos_filled + 1] = el
+            super().__setitem__(self._last_pos_filled + 1, el)
         self._last_pos_filled += 1
-        self._num += 1
+        self._num += el is not None
         return self._modify()
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
             self[idx] is not None:
             self[idx] = None
-            self._num -= 1
             if self._last_pos_filled == idx:
                 self._last_pos_filled -= 1
             return self._modify()
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index be9b0e3..1e1731e 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1211,7 +1211,6 @@ class SplayTree(SelfBalancingBinaryTree):
                 self.size += 1
             else:
                 self.tree.append(node)
-                self.tree._num -= 1
         indices = {node.key: idx for idx, node in enumerate(self.tree)
                    if node is not None}
         self.root_idx = indices[root_key]
-- 
2.43.0


From 85f66507aee03eabace1ff545434e8574150f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 112/160] fix: appending to a C++ dynamic array or stack must
 check the element's type

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp   | 4 ++++
 pydatastructs/linear_data_structures/arrays.py           | 9 ++++++++-
 .../_backend/cpp/stack/ArrayStack.hpp                    | 4 +---
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index a4e7b30..dcd74d9 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -156,6 +156,10 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
     if ( !el ) {
         return NULL;
     }
+    if ( el != Py_None && raise_exception_if_dtype_mismatch(el,
+        self->_one_dimensional_array->_dtype) ) {
+        return NULL;
+    }
 
     long _size = (long) self->_one_dimensional_array->_size;
     PyObject** _data = self->_one_dimensional_array->_data;
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 0f10115..124cefd 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -1,6 +1,7 @@
 from pydatastructs.utils.misc_util import (
-    _check_type, NoneType, Backend,
+    _check_type, NoneType, Backend, TreeNode,
     raise_if_backend_is_not_python)
+from pydatastructs.utils._backend.cpp import _nodes
 from pydatastructs.linear_data_structures._backend.cpp import _arrays
 
 __all__ = [
@@ -464,6 +465,12 @@ class ArrayForTrees(DynamicOneDimensionalArray):
 
     pydatastructs.linear_data_structures.arrays.DynamicOneDimensionalArray
     """
+    def __new__(cls, dtype=NoneType, *args, **kwargs):
+        backend = kwargs.get("backend", Backend.PYTHON)
+        if backend == Backend.CPP and dtype is TreeNode:
+            dtype = _nodes.TreeNode
+        return super().__new__(cls, dtype, *args, **kwargs)
+
     def _modify(self):
         if self._num/self._size < self._load_factor:
             new_indices = {}
diff --git a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
index 36633c0..a64ff2e 100644
--- a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
+++ b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
@@ -82,9 +82,7 @@ static PyObject* ArrayStack_push(ArrayStack *self, PyObject* args) {
         );
     }
 
-    DynamicOneDimensionalArray_append(self->_items, args);
-
-    Py_RETURN_NONE;
+    return DynamicOneDimensionalArray_append(self->_items, args);
 }
 
 static PyObject* ArrayStack_pop(ArrayStack *self) {
-- 
2.43.0


From f75a2b942d4e213f42b0da99f14735594afc97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:07 +0000
Subject: [PATCH 113/160] fix: the C++ backend crashed when text it shows or
 compares holds lone surrogates or raises

---
 .../cpp/algorithms/misc_algorithms.hpp        | 12 ++---
 pydatastructs/utils/_backend/cpp/utils.hpp    | 45 +++++++++++++------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 6384159..4ce37f8 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -102,8 +102,8 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
                 "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
+                PyObject_TypeAsString(u),
+                PyObject_TypeAsString(value)
             );
             return NULL;
         } else if (result == 1) {
@@ -165,8 +165,8 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
                 "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
+                PyObject_TypeAsString(u),
+                PyObject_TypeAsString(value)
             );
             return NULL;
         } else if (result == 1) {
@@ -252,8 +252,8 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
                 "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
+                PyObject_TypeAsString(u),
+                PyObject_TypeAsString(value)
             );
             return NULL;
         } else if (result == 1) {
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index e416dd8..1ed2638 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -43,9 +43,21 @@ static PyObject* get_PyThree() {
 #define PyThree get_PyThree()
 static const char* _encoding = "utf-8";
 static const char* _invalid_char = "<invalid-character>";
+static const char* _errors = "surrogatepass";
 
-static char* PyObject_AsString(PyObject* obj) {
-    return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
+static const char* PyObject_AsString(PyObject* obj) {
+    PyObject* bytes = obj ? PyUnicode_AsEncodedString(obj, _encoding, _errors) : NULL;
+    if ( !bytes ) {
+        PyErr_Clear();
+        return _invalid_char;
+    }
+    return PyBytes_AS_STRING(bytes);
+}
+
+// Name of the type of obj for messages, replaces any exception raised so far
+static const char* PyObject_TypeAsString(PyObject* obj) {
+    PyErr_Clear();
+    return PyObject_AsString(PyObject_Repr(reinterpret_cast<PyObject*>(Py_TYPE(obj))));
 }
 
 static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2) {
@@ -56,15 +68,18 @@ static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2)
             array___str__.append("''");
         } else {
             PyObject* array_i = PyObject_Str(array[i]);
-            char* i___str__ = PyObject_AsString(array_i);
-            array___str__.append("'" + std::string(i___str__) + "'");
+            PyObject* i_bytes = array_i ? PyUnicode_AsEncodedString(array_i, _encoding, _errors) : NULL;
+            if ( !i_bytes ) {
+                return NULL;
+            }
+            array___str__.append("'" + std::string(PyBytes_AS_STRING(i_bytes), PyBytes_GET_SIZE(i_bytes)) + "'");
         }
         if ( i + 1 != end ) {
             array___str__.append(", ");
         }
     }
     array___str__.push_back(']');
-    return PyUnicode_FromString(array___str__.c_str());
+    return PyUnicode_DecodeUTF8(array___str__.data(), array___str__.size(), _errors);
 }
 
 static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
@@ -72,7 +87,7 @@ static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
         PyErr_WriteUnraisable(
             PyErr_Format(PyExc_TypeError,
             "Unable to store %s object in %s type array.",
-            PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
+            PyObject_TypeAsString(value),
             PyObject_AsString(PyObject_Repr(dtype))));
         return 1;
     }
@@ -80,10 +95,14 @@ static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
 }
 
 static int raise_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-    if ( !PyObject_IsInstance(value, dtype) ) {
+    int is_instance = PyObject_IsInstance(value, dtype);
+    if ( is_instance == -1 ) {
+        return 1;
+    }
+    if ( !is_instance ) {
         PyErr_Format(PyExc_TypeError,
         "Unable to store %s object in %s type array.",
-        PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
+        PyObject_TypeAsString(value),
         PyObject_AsString(PyObject_Repr(dtype)));
         return 1;
     }
@@ -94,7 +113,7 @@ static int raise_exception_if_not_array(PyObject* arg) {
     PyErr_Format(PyExc_TypeError,
         ("Unable to sort %s data structure. "
          "Only accepted types are OneDimensionalArray and DynamicOneDinesionalArray"),
-        PyObject_AsString(PyObject_Repr(PyObject_Type(arg)))
+        PyObject_TypeAsString(arg)
     );
     return 1;
 }
@@ -120,8 +139,8 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
         if ( !result_PyObject ) {
             PyErr_Format(PyExc_ValueError,
                 "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(v)))
+                PyObject_TypeAsString(u),
+                PyObject_TypeAsString(v)
             );
             return -1;
         }
@@ -132,8 +151,8 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
     if ( result == -1 ) {
         PyErr_Format(PyExc_ValueError,
             "Unable to compare %s object with %s object.",
-            PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-            PyObject_AsString(PyObject_Repr(PyObject_Type(v)))
+            PyObject_TypeAsString(u),
+            PyObject_TypeAsString(v)
         );
     }
     return result;
-- 
2.43.0


From 11d748f136b652cae13daf773678da1c38839151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 114/160] fix: C++ sorts and searches must refuse bounds which
 aren't indices instead of running on with an error set

---
 .../cpp/algorithms/misc_algorithms.hpp        | 77 +++++--------------
 .../cpp/algorithms/quadratic_time_sort.hpp    | 57 ++++----------
 .../_backend/cpp/algorithms/quick_sort.hpp    | 17 +---
 pydatastructs/utils/_backend/cpp/utils.hpp    | 33 ++++++++
 4 files changed, 72 insertions(+), 112 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 4ce37f8..642a3c6 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -28,7 +28,7 @@ static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
 }
 
 static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *comp = NULL, *res = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -42,19 +42,8 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( comp == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
 
     bool _res = is_ordered_impl(args0, lower, upper, comp);
@@ -67,7 +56,7 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
 }
 
 static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *value = NULL, *res = NULL, *u = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -77,19 +66,8 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
     value = PyObject_GetItem(args, PyLong_FromSize_t(1));
     if ( value == NULL ) {
@@ -98,6 +76,9 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
     }
     for (size_t i = lower;  i < upper + 1; i++) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(i));
+        if ( u == NULL ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -122,7 +103,7 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
 }
 
 static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *value = NULL, *res = NULL, *u = NULL, *comp = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -136,19 +117,8 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( comp == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
     value = PyObject_GetItem(args, PyLong_FromSize_t(1));
     if ( value == NULL ) {
@@ -161,6 +131,9 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     {
         int middle = left/2 + right/2 + left % 2 * right % 2;
         u = PyObject_GetItem(args0, PyLong_FromSize_t(middle));
+        if ( u == NULL ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -194,7 +167,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
 }
 
 static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *value = NULL, *res = NULL, *u = NULL, *comp = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -208,19 +181,8 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( comp == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
     value = PyObject_GetItem(args, PyLong_FromSize_t(1));
     if ( value == NULL ) {
@@ -248,6 +210,9 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
 
     while (prev <= upper) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(prev));
+        if ( u == NULL ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 46a6ba0..2875d0a 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -33,7 +33,7 @@ static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
 
 
 static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper, arr_length;
     args0 = PyObject_GetItem(args, PyZero);
@@ -47,19 +47,8 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( comp == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
     arr_length = PyObject_Length(args0);
 
@@ -637,6 +626,9 @@ static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper
             }
         }
         PyObject* tmp = PyObject_GetItem(array, j_min_PyObject);
+        if ( tmp == NULL ) {
+            return NULL;
+        }
         PyObject_SetItem(array, j_min_PyObject,
                         PyObject_GetItem(array, i_PyObject));
         PyObject_SetItem(array, i_PyObject, tmp);
@@ -646,7 +638,7 @@ static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper
 
 
 static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -660,19 +652,8 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     if ( comp == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
 
     args0 = selection_sort_impl(args0, lower, upper, comp);
@@ -1238,6 +1219,9 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
     for (size_t i = lower + 1; i < upper + 1; i++) {
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         PyObject* temp = PyObject_GetItem(array, i_PyObject);
+        if ( temp == NULL ) {
+            return NULL;
+        }
         size_t j = i;
         int ordered = 1;
         while (j > lower && (ordered = _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
@@ -1260,7 +1244,7 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
 }
 
 static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -1274,19 +1258,8 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     if ( comp == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
 
     args0 = insertion_sort_impl(args0, lower, upper, comp);
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index fb2c87f..18a09d4 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -104,7 +104,7 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
 }
 
 static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
-    PyObject *args0 = NULL, *start = NULL, *end = NULL;
+    PyObject *args0 = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
@@ -122,19 +122,8 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( pick_pivot_element == NULL ) {
         PyErr_Clear();
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
-    if ( start == NULL ) {
-        PyErr_Clear();
-        lower = 0;
-    } else {
-        lower = PyLong_AsSize_t(start);
-    }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
-    if ( end == NULL ) {
-        PyErr_Clear();
-        upper = PyObject_Length(args0) - 1;
-    } else {
-        upper = PyLong_AsSize_t(end);
+    if ( !get_bounds(args0, kwds, &lower, &upper) ) {
+        return NULL;
     }
 
     args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 1ed2638..8323824 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -122,7 +122,40 @@ static int _check_type(PyObject* arg, PyTypeObject* type) {
     return strcmp(arg->ob_type->tp_name, type->tp_name) == 0;
 }
 
+static bool get_index(PyObject* kwds, const char* name, Py_ssize_t* index) {
+    PyObject* value = PyObject_GetItem(kwds, PyUnicode_FromString(name));
+    if ( value == NULL ) {
+        PyErr_Clear();
+        return true;
+    }
+    *index = PyLong_AsSsize_t(value);
+    return *index != -1 || !PyErr_Occurred();
+}
+
+// Reads start and end, by default all of the array, as an empty range when there
+// is nothing between them
+static bool get_bounds(PyObject* array, PyObject* kwds, size_t* lower, size_t* upper) {
+    Py_ssize_t start = 0, end = PyObject_Length(array) - 1;
+    if ( !get_index(kwds, "start", &start) || !get_index(kwds, "end", &end) ) {
+        return false;
+    }
+    if ( start > end ) {
+        start = 1;
+        end = 0;
+    }
+    if ( start < 0 ) {
+        PyErr_Format(PyExc_IndexError, "Index %zd out of range", start);
+        return false;
+    }
+    *lower = start;
+    *upper = end;
+    return true;
+}
+
 static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
+    if ( !u || !v ) {
+        return -1; // reading the element has failed
+    }
     int u_isNone = u == Py_None;
     int v_isNone = v == Py_None;
     if ( u_isNone && !v_isNone) {
-- 
2.43.0


From 439d6e766532610910c56cf9b845c041b4b69ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:32 +0000
Subject: [PATCH 115/160] fix: Fenwick trees must sum values of any numeric
 types, in C++ without overflow

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 83 ++++++++++++-------
 pydatastructs/trees/binary_trees.py           |  4 +-
 2 files changed, 53 insertions(+), 34 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index c00edec..31822a5 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -25,9 +25,9 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 }
 
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
-    long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
-    if (PyErr_Occurred()) {
+    long index;
+    PyObject* value;
+    if (!PyArg_ParseTuple(args, "lO", &index, &value)) {
         return NULL;
     }
     if (index < 0 || index >= static_cast<long>(self->array->_size)) {
@@ -35,26 +35,31 @@ static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *arg
         return NULL;
     }
     long _index = index;
-    long _value = value;
+    PyObject* change;
     if (PyList_GetItem(self->flag, index) == PyZero) {
-        PyList_SetItem(self->flag, index, PyOne);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
-        }
+        Py_INCREF(value);
+        change = value;
     }
     else {
-        value = value - PyLong_AsLong(self->array->_data[index]);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
+        change = PyNumber_Subtract(value, self->array->_data[index]);
+        if (!change) {
+            return NULL;
+        }
+    }
+    index += 1;
+    while (index < static_cast<long>(self->array->_size) + 1) {
+        PyObject* sum = PyNumber_Add(PyList_GetItem(self->tree, index), change);
+        if (!sum) {
+            Py_DECREF(change);
+            return NULL;
         }
+        PyList_SetItem(self->tree, index, sum);
+        index = index + (index & (-1*index));
     }
-    self->array->_data[_index] = PyLong_FromLong(_value);
+    Py_DECREF(change);
+    PyList_SetItem(self->flag, _index, PyOne);
+    Py_INCREF(value);
+    self->array->_data[_index] = value;
     Py_RETURN_NONE;
 }
 
@@ -62,7 +67,7 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
     BinaryIndexedTree *self;
     self = reinterpret_cast<BinaryIndexedTree*>(type->tp_alloc(type, 0));
 
-    // Python code is such that arguments  are: type(array[0]) and array
+    // Python code is such that arguments  are: object and array
 
     if (PyType_Ready(&OneDimensionalArrayType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
@@ -79,35 +84,49 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
     self->flag = PyList_New(self->array->_size);
     for(int i=0;i<self->array->_size;i++) {
         PyList_SetItem(self->flag, i, PyZero);
-        BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]));
+        if (!BinaryIndexedTree_update(self, Py_BuildValue("(iO)", i, self->array->_data[i]))) {
+            return NULL;
+        }
     }
 
     return reinterpret_cast<PyObject*>(self);
 }
 
 static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
-    long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    long index;
+    if (!PyArg_ParseTuple(args, "l", &index)) {
+        return NULL;
+    }
     index += 1;
-    long sum = 0;
+    PyObject* sum = PyLong_FromLong(0);
     while (index > 0) {
-        sum += PyLong_AsLong(PyList_GetItem(self->tree, index));
+        PyObject* part = PyList_GetItem(self->tree, index);
+        PyObject* total = part ? PyNumber_Add(sum, part) : NULL;
+        Py_DECREF(sum);
+        if (!total) {
+            return NULL;
+        }
+        sum = total;
         index = index - (index & (-1*index));
     }
 
-    return PyLong_FromLong(sum);
+    return sum;
 }
 
 static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *args) {
-    long left_index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long right_index = PyLong_AsLong(PyObject_GetItem(args, PyOne));
-    if (left_index >= 1) {
-        long l1 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index))));
-        long l2 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1))));
-        return PyLong_FromLong(l1 - l2);
+    long left_index, right_index;
+    if (!PyArg_ParseTuple(args, "ll", &left_index, &right_index)) {
+        return NULL;
     }
-    else {
-        return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+    PyObject* right_sum = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(l)", right_index));
+    if (left_index < 1 || !right_sum) {
+        return right_sum;
+    }
+    PyObject* left_sum = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(l)", left_index - 1));
+    if (!left_sum) {
+        return NULL;
     }
+    return PyNumber_Subtract(right_sum, left_sum);
 }
 
 
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 1e1731e..c2bb94e 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1864,9 +1864,9 @@ class BinaryIndexedTree(object):
     def __new__(cls, array, **kwargs):
         backend = kwargs.get('backend', Backend.PYTHON)
         if backend == Backend.CPP:
-            return _trees.BinaryIndexedTree(type(array[0]), array, **kwargs)
+            return _trees.BinaryIndexedTree(object, array, **kwargs)
         obj = object.__new__(cls)
-        obj.array = OneDimensionalArray(type(array[0]), array)
+        obj.array = OneDimensionalArray(object, array)
         obj.tree = [0] * (obj.array._size + 2)
         obj.flag = [0] * (obj.array._size)
         for index in range(obj.array._size):
-- 
2.43.0


From 371696cd7f87b6ba5a0a22747889ab9189133a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 116/160] fix: C++ trees must report that their base refuses
 the arguments instead of crashing

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp                 | 3 +++
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp        | 3 +++
 pydatastructs/trees/_backend/cpp/BinaryTree.hpp              | 5 ++++-
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp           | 3 +++
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp            | 3 +++
 pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp | 3 +++
 pydatastructs/trees/_backend/cpp/SplayTree.hpp               | 3 +++
 pydatastructs/trees/_backend/cpp/Treap.hpp                   | 3 +++
 8 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index b4222d0..037a958 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -30,6 +30,9 @@ static PyObject* AVLTree___new__(PyTypeObject* type, PyObject *args, PyObject *k
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (p == NULL) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = self->sbbt->bst->binary_tree->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 252ecbf..82744e7 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -30,6 +30,9 @@ static PyObject* BinarySearchTree___new__(PyTypeObject* type, PyObject *args, Py
         return NULL;
     }
     PyObject* bt = BinaryTree___new__(&BinaryTreeType, args, kwds);
+    if (bt == NULL) {
+        return NULL;
+    }
     self->binary_tree = reinterpret_cast<BinaryTree*>(bt);
     self->tree = reinterpret_cast<BinaryTree*>(bt)->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index b07336d..98a4e49 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -75,7 +75,10 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
             return NULL;
     }
     self->comparator = comp;
-    self->is_order_statistic = PyLong_AsLong(is_order_statistic);
+    self->is_order_statistic = PyObject_IsTrue(is_order_statistic);
+    if (self->is_order_statistic == -1) {
+        return NULL;
+    }
 
     return reinterpret_cast<PyObject*>(self);
 }
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index dacb639..543692a 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -30,6 +30,9 @@ static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObj
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (p == NULL) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 758bba9..56b37e9 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -30,6 +30,9 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (p == NULL) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->color = 0;
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 66d3dac..8c687fe 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -29,6 +29,9 @@ static PyObject* SelfBalancingBinaryTree___new__(PyTypeObject* type, PyObject *a
         return NULL;
     }
     PyObject* p = BinarySearchTree___new__(&BinarySearchTreeType, args, kwds);
+    if (p == NULL) {
+        return NULL;
+    }
     self->bst = reinterpret_cast<BinarySearchTree*>(p);
     self->tree = reinterpret_cast<BinarySearchTree*>(p)->binary_tree->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b9bbeac..c71299a 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -32,6 +32,9 @@ static PyObject* SplayTree___new__(PyTypeObject* type, PyObject *args, PyObject
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (p == NULL) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     self->type = type;
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index afb8a8b..594187a 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -31,6 +31,9 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
         return NULL;
     }
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
+    if (p == NULL) {
+        return NULL;
+    }
     self->ct = reinterpret_cast<CartesianTree*>(p);
     self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
     TreeNode* root = reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0]);
-- 
2.43.0


From 3003dc5a775eb965eb03d0b39f4ecd4ab8418c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 117/160] fix: traversals of C++ trees must refuse a start
 which isn't a node

---
 .../_backend/cpp/BinaryTreeTraversal.hpp      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index da745d9..42e364d 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -180,6 +180,19 @@ static PyObject* BinaryTreeTraversal__out_order(BinaryTreeTraversal* self, PyObj
     return visit;
 }
 
+static bool BinaryTreeTraversal__is_node(BinaryTreeTraversal* self, PyObject *node) {
+    ArrayForTrees* tree = self->tree->tree;
+    long idx = PyLong_AsLong(node);
+    if (idx == -1 && PyErr_Occurred()) {
+        return false;
+    }
+    if (idx < 0 || idx > tree->_last_pos_filled || tree->_one_dimensional_array->_data[idx] == Py_None) {
+        PyErr_Format(PyExc_IndexError, "There is no node with index %ld.", idx);
+        return false;
+    }
+    return true;
+}
+
 static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* self, PyObject *args, PyObject *kwds) {
     Py_INCREF(Py_None);
     PyObject* node = Py_None;
@@ -191,6 +204,9 @@ static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* sel
     if (node == Py_None) {
         node = self->tree->root_idx;
     }
+    if (!BinaryTreeTraversal__is_node(self, node)) {
+        return NULL;
+    }
     if (PyUnicode_Compare(order, PyUnicode_FromString("pre_order")) == 0) {
         return BinaryTreeTraversal__pre_order(self, Py_BuildValue("(O)", node));
     }
@@ -221,6 +237,9 @@ static PyObject* BinaryTreeTraversal_breadth_first_search(BinaryTreeTraversal* s
         if (node == Py_None) {
             node = self->tree->root_idx;
         }
+        if (!BinaryTreeTraversal__is_node(self, node)) {
+            return NULL;
+        }
         std::queue<PyObject*> q;
         PyObject* visit = PyList_New(0);
         ArrayForTrees* tree = self->tree->tree;
-- 
2.43.0


From f15a74d81c4d32ac5cd329ebe359f92e6e756b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 118/160] fix: select in a C++ tree must not read the key of a
 child that isn't there

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 82744e7..23bb0a9 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -695,6 +695,10 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             return NULL;
         }
         if (i < l) {
+            if (left_walk == Py_None) {
+                walk = right_walk;
+                continue;
+            }
             if (!PyCallable_Check(bt->comparator)) {
                 PyErr_SetString(PyExc_ValueError, "comparator should be callable");
                 return NULL;
@@ -719,6 +723,11 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             }
         }
         else {
+            if (right_walk == Py_None) {
+                walk = left_walk;
+                i = i - (l + 1);
+                continue;
+            }
             if (!PyCallable_Check(bt->comparator)) {
                 PyErr_SetString(PyExc_ValueError, "comparator should be callable");
                 return NULL;
-- 
2.43.0


From 5e1b3029d4d048ddfded8dc7da46e5cc095ad110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 119/160] fix: joining a C++ splay tree and setting the array
 of an AVL tree must check what they are given

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  | 19 ++++++++++++++++++-
 .../trees/_backend/cpp/SplayTree.hpp          |  6 +++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 037a958..6d0663f 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -44,7 +44,24 @@ static PyObject* AVLTree___str__(AVLTree *self) {
 }
 
 static PyObject* AVLTree_set_tree(AVLTree* self, PyObject *args) {
-    ArrayForTrees* arr = reinterpret_cast<ArrayForTrees*>(PyObject_GetItem(args, PyZero));
+    PyObject* array = PyObject_GetItem(args, PyZero);
+    if (array == NULL) {
+        return NULL;
+    }
+    // Dynamic arrays have the layout of an ArrayForTrees, names are compared as every module has types of its own
+    if ((Py_TYPE(array)->tp_flags & Py_TPFLAGS_HEAPTYPE) ||
+        (!_check_type(array, &DynamicOneDimensionalArrayType) && !_check_type(array, &ArrayForTreesType))) {
+        PyErr_SetString(PyExc_TypeError, "Expected an array of the C++ backend for trees");
+        return NULL;
+    }
+    ArrayForTrees* arr = reinterpret_cast<ArrayForTrees*>(array);
+    for (long i = 0; i <= arr->_last_pos_filled; i++) {
+        PyObject* node = arr->_one_dimensional_array->_data[i];
+        if (node != Py_None && ((Py_TYPE(node)->tp_flags & Py_TPFLAGS_HEAPTYPE) || !_check_type(node, &TreeNodeType))) {
+            PyErr_SetString(PyExc_TypeError, "Expected an array of C++ tree nodes");
+            return NULL;
+        }
+    }
     self->sbbt->bst->binary_tree->tree = arr;
     self->tree = self->sbbt->bst->binary_tree->tree;
     Py_RETURN_NONE;
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index c71299a..32bcc93 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -198,7 +198,11 @@ static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
 }
 
 static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
-    SplayTree* other = reinterpret_cast<SplayTree*>(PyObject_GetItem(args, PyZero));
+    PyObject* other_tree;
+    if (!PyArg_ParseTuple(args, "O!", Py_TYPE(self), &other_tree)) {
+        return NULL;
+    }
+    SplayTree* other = reinterpret_cast<SplayTree*>(other_tree);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
-- 
2.43.0


From be97aa4c31eac94a7d0426a6189529e80d7d8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 120/160] fix: balance_factor and rank of C++ trees must check
 their argument

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp          | 9 ++++++++-
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 6d0663f..02a9170 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -94,7 +94,14 @@ static long AVLTree_right_height(AVLTree* self, PyObject *args) {
 }
 
 static PyObject* AVLTree_balance_factor(AVLTree* self, PyObject *args) {
-    TreeNode* node = reinterpret_cast<TreeNode*>(PyObject_GetItem(args, PyZero));
+    PyObject* node;
+    if (!PyArg_ParseTuple(args, "O", &node)) {
+        return NULL;
+    }
+    if ((Py_TYPE(node)->tp_flags & Py_TPFLAGS_HEAPTYPE) || !_check_type(node, &TreeNodeType)) {
+        PyErr_SetString(PyExc_TypeError, "Expected a C++ tree node");
+        return NULL;
+    }
     return PyLong_FromLong(AVLTree_right_height(self, Py_BuildValue("(O)", node)) - AVLTree_left_height(self, Py_BuildValue("(O)", node)));
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 23bb0a9..e53596e 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -648,7 +648,10 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 }
 
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
     if (walk == NULL) {
         return NULL;
-- 
2.43.0


From d71996f1d3c0cf8309fbfd4e59be581dbda676aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 121/160] fix: naming or linking a C++ graph node must refuse
 text it can't encode and deletion instead of crashing

---
 .../_backend/cpp/AdjacencyListGraphNode.hpp     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 53608e9..d29af9a 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -124,11 +124,19 @@ static PyObject* AdjacencyListGraphNode_get_name(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
     if (!PyUnicode_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "name must be a string");
         return -1;
     }
-    self->name = PyUnicode_AsUTF8(value);
+    const char* name = PyUnicode_AsUTF8(value);
+    if (!name) {
+        return -1;
+    }
+    self->name = name;
     return 0;
 }
 
@@ -157,6 +165,10 @@ static PyObject* AdjacencyListGraphNode_get_adjacent(AdjacencyListGraphNode* sel
 }
 
 static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
     if (!PyDict_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "adjacent must be a dictionary");
         return -1;
@@ -173,6 +185,9 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         }
 
         const char* key_str = PyUnicode_AsUTF8(key);
+        if (!key_str) {
+            return -1;
+        }
         Py_INCREF(val);
         self->adjacent[key_str] = val;
     }
-- 
2.43.0


From 9f48683a851b28f8c57ee3f5895e595fc6598865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 122/160] fix: C++ trees must pass on that a key can't be
 compared, and report missing arguments

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp     |  5 ++++-
 .../trees/_backend/cpp/BinarySearchTree.hpp      | 14 +++++++++++---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp   | 16 ++++++++++++----
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 02a9170..d53778b 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -328,7 +328,10 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 }
 
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    if (!PyArg_ParseTuple(args, "O", &key)) {
+        return NULL;
+    }
     PyObject* found = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     if (found == NULL) {
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index e53596e..dcf56ad 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -86,13 +86,17 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &ret_parent)) { // ret_parent is optional
         return NULL;
     }
+    int with_parent = PyObject_IsTrue(ret_parent);
+    if (with_parent == -1) {
+        return NULL;
+    }
     BinaryTree* bt = self->binary_tree;
     Py_INCREF(Py_None);
     PyObject* parent = Py_None;
     PyObject* walk = bt->root_idx;
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
-        if (ret_parent != Py_None && PyLong_AsLong(ret_parent) != 0) {
+        if (with_parent) {
             return Py_BuildValue("(OO)", Py_None, Py_None);
         }
         Py_RETURN_NONE;
@@ -101,7 +105,11 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     while (walk != Py_None) {
         PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
 
-        if (_equal(curr_key, key)) {
+        int found = PyObject_RichCompareBool(curr_key, key, Py_EQ);
+        if (found == -1) {
+            return NULL;
+        }
+        if (found) {
             break;
         }
         parent = walk;
@@ -131,7 +139,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     }
 
     Py_INCREF(Py_None);
-    if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
+    if (!with_parent) {
         Py_INCREF(walk);
         return walk;
     }
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 32bcc93..b245686 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -133,8 +133,10 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
-    PyObject* x = PyObject_GetItem(args, PyOne);
+    PyObject *key, *x;
+    if (!PyArg_ParseTuple(args, "OO", &key, &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     if (SelfBalancingBinaryTree_insert(self->sbbt, args) == NULL) {
@@ -154,7 +156,10 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
@@ -305,7 +310,10 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
-- 
2.43.0


From 16fa57b810f3117b77385dcda1ebadff3a97a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:34 +0000
Subject: [PATCH 123/160] fix: bounds in C++ trees must pass on that a key
 can't be compared

---
 .../trees/_backend/cpp/BinarySearchTree.hpp    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index dcf56ad..8df92e0 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -251,6 +251,10 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
         return NULL;
     }
+    int with_balancing_info = PyObject_IsTrue(balancing_info);
+    if (with_balancing_info == -1) {
+        return NULL;
+    }
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
@@ -372,11 +376,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
         }
     }
 
-    if (balancing_info != Py_None) {
-        if (PyLong_AsLong(balancing_info) == 1) {
-            Py_INCREF(a);
-            return a;
-        }
+    if (with_balancing_info) {
+        Py_INCREF(a);
+        return a;
     }
     Py_RETURN_TRUE;
 }
@@ -393,7 +395,11 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    if (_equal(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key)) {
+    int found = PyObject_RichCompareBool(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key, Py_EQ);
+    if (found == -1) {
+        return NULL;
+    }
+    if (found) {
         if (is_upper == Py_False) {
             Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
-- 
2.43.0


From d1300156bb035df12344dde58dd80b71c5f25a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:28 +0000
Subject: [PATCH 124/160] fix: size, comparator and is_order_statistic of C++
 trees must not read unrelated memory

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp       |  7 +++++++
 .../trees/_backend/cpp/BinarySearchTree.hpp        |  7 +++++++
 pydatastructs/trees/_backend/cpp/BinaryTree.hpp    | 14 ++++++++++++++
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp |  7 +++++++
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp  |  7 +++++++
 .../trees/_backend/cpp/SelfBalancingBinaryTree.hpp |  7 +++++++
 pydatastructs/trees/_backend/cpp/SplayTree.hpp     |  7 +++++++
 pydatastructs/trees/_backend/cpp/Treap.hpp         |  7 +++++++
 8 files changed, 63 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index d53778b..74198b3 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -372,6 +372,10 @@ static PyObject* AVLTree__lca_2(AVLTree* self, PyObject *args) {
     return BinarySearchTree__lca_2(self->sbbt->bst, args);
 }
 
+static PyObject* AVLTree_get_attribute(AVLTree *self, void *closure) {
+    return BinaryTree_get_attribute(self->sbbt->bst->binary_tree, closure);
+}
+
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -401,6 +405,9 @@ static struct PyMethodDef AVLTree_PyMethodDef[] = {
 
 static PyGetSetDef AVLTree_GetterSetters[] = {
     {"root_idx", (getter) AVLTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) AVLTree_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) AVLTree_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) AVLTree_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 8df92e0..c7c9c00 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -773,6 +773,10 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
     Py_RETURN_NONE; // dummy return statement, never executed
 }
 
+static PyObject* BinarySearchTree_get_attribute(BinarySearchTree *self, void *closure) {
+    return BinaryTree_get_attribute(self->binary_tree, closure);
+}
+
 static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure) {
     Py_INCREF(self->binary_tree->root_idx);
     return self->binary_tree->root_idx;
@@ -796,6 +800,9 @@ static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
 
 static PyGetSetDef BinarySearchTree_GetterSetters[] = {
     {"root_idx", (getter) BinarySearchTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) BinarySearchTree_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) BinarySearchTree_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) BinarySearchTree_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index 98a4e49..abf41e6 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -130,6 +130,20 @@ static struct PyMethodDef BinaryTree_PyMethodDef[] = {
     {NULL}
 };
 
+// Trees made of a BinaryTree have another layout, so they can't use its members.
+static PyObject* BinaryTree_get_attribute(BinaryTree* self, void* closure) {
+    const char* attr = reinterpret_cast<const char*>(closure);
+    if (strcmp(attr, "size") == 0) {
+        return PyLong_FromLong(self->size);
+    }
+    if (strcmp(attr, "is_order_statistic") == 0) {
+        return PyBool_FromLong(self->is_order_statistic);
+    }
+    PyObject* value = strcmp(attr, "comparator") == 0 ? self->comparator : self->root_idx;
+    Py_INCREF(value);
+    return value;
+}
+
 static PyMemberDef BinaryTree_PyMemberDef[] = {
     {"root_idx", T_OBJECT_EX, offsetof(BinaryTree, root_idx), 0, "Index of the root node"},
     {"comparator", T_OBJECT, offsetof(BinaryTree, comparator), 0, "Comparator function"},
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 543692a..ef83264 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -203,6 +203,10 @@ static PyObject* CartesianTree__lca_2(CartesianTree* self, PyObject *args) {
     return BinarySearchTree__lca_2(self->sbbt->bst, args);
 }
 
+static PyObject* CartesianTree_get_attribute(CartesianTree *self, void *closure) {
+    return BinaryTree_get_attribute(self->sbbt->bst->binary_tree, closure);
+}
+
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -226,6 +230,9 @@ static struct PyMethodDef CartesianTree_PyMethodDef[] = {
 
 static PyGetSetDef CartesianTree_GetterSetters[] = {
     {"root_idx", (getter) CartesianTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) CartesianTree_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) CartesianTree_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) CartesianTree_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 56b37e9..3f4965d 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -631,6 +631,10 @@ static PyObject* RedBlackTree__lca_2(RedBlackTree* self, PyObject *args) {
     return BinarySearchTree__lca_2(self->sbbt->bst, args);
 }
 
+static PyObject* RedBlackTree_get_attribute(RedBlackTree *self, void *closure) {
+    return BinaryTree_get_attribute(self->sbbt->bst->binary_tree, closure);
+}
+
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -658,6 +662,9 @@ static struct PyMethodDef RedBlackTree_PyMethodDef[] = {
 
 static PyGetSetDef RedBlackTree_GetterSetters[] = {
     {"root_idx", (getter) RedBlackTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) RedBlackTree_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) RedBlackTree_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) RedBlackTree_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 8c687fe..070172c 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -247,6 +247,10 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
     Py_RETURN_NONE;
 }
 
+static PyObject* SelfBalancingBinaryTree_get_attribute(SelfBalancingBinaryTree *self, void *closure) {
+    return BinaryTree_get_attribute(self->bst->binary_tree, closure);
+}
+
 static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self, void *closure) {
     Py_INCREF(self->bst->binary_tree->root_idx);
     return self->bst->binary_tree->root_idx;
@@ -274,6 +278,9 @@ static struct PyMethodDef SelfBalancingBinaryTree_PyMethodDef[] = {
 
 static PyGetSetDef SelfBalancingBinaryTree_GetterSetters[] = {
     {"root_idx", (getter) SelfBalancingBinaryTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) SelfBalancingBinaryTree_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) SelfBalancingBinaryTree_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) SelfBalancingBinaryTree_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b245686..40e2f12 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -389,6 +389,10 @@ static PyObject* SplayTree__lca_2(SplayTree* self, PyObject *args) {
     return BinarySearchTree__lca_2(self->sbbt->bst, args);
 }
 
+static PyObject* SplayTree_get_attribute(SplayTree *self, void *closure) {
+    return BinaryTree_get_attribute(self->sbbt->bst->binary_tree, closure);
+}
+
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
@@ -414,6 +418,9 @@ static struct PyMethodDef SplayTree_PyMethodDef[] = {
 
 static PyGetSetDef SplayTree_GetterSetters[] = {
     {"root_idx", (getter) SplayTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) SplayTree_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) SplayTree_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) SplayTree_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 594187a..469cb6b 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -102,6 +102,10 @@ static PyObject* Treap__lca_2(Treap* self, PyObject *args) {
     return BinarySearchTree__lca_2(self->ct->sbbt->bst, args);
 }
 
+static PyObject* Treap_get_attribute(Treap *self, void *closure) {
+    return BinaryTree_get_attribute(self->ct->sbbt->bst->binary_tree, closure);
+}
+
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
     Py_INCREF(self->ct->sbbt->bst->binary_tree->root_idx);
     return self->ct->sbbt->bst->binary_tree->root_idx;
@@ -125,6 +129,9 @@ static struct PyMethodDef Treap_PyMethodDef[] = {
 
 static PyGetSetDef Treap_GetterSetters[] = {
     {"root_idx", (getter) Treap_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) Treap_get_attribute, NULL, "Comparator function", const_cast<char*>("comparator")},
+    {"size", (getter) Treap_get_attribute, NULL, "Size of the tree", const_cast<char*>("size")},
+    {"is_order_statistic", (getter) Treap_get_attribute, NULL, "Whether the tree is ordered statically or not", const_cast<char*>("is_order_statistic")},
     {NULL}  /* Sentinel */
 };
 
-- 
2.43.0


From 9f08db89eebe7328ef2d515900893f22c4ad4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 125/160] fix: C++ traversals and tree nodes made without
 arguments must raise instead of crashing

---
 pydatastructs/trees/_backend/cpp/BinaryTree.hpp          | 3 +++
 pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp | 5 ++++-
 pydatastructs/utils/_backend/cpp/TreeNode.hpp            | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index abf41e6..12c39fd 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -43,6 +43,9 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
         return NULL;
     }
     TreeNode* root = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, args, kwds));
+    if (root == NULL) {
+        return NULL;
+    }
     root->is_root = true;
     self->root_idx = PyLong_FromLong(0);
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index 42e364d..cb805dc 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -34,7 +34,10 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
     BinaryTreeTraversal *self;
     self = reinterpret_cast<BinaryTreeTraversal*>(type->tp_alloc(type, 0));
 
-    PyObject* tree = PyObject_GetItem(args, PyZero);
+    PyObject* tree;
+    if (!PyArg_ParseTuple(args, "O", &tree)) {
+        return NULL;
+    }
     if (PyType_Ready(&BinarySearchTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index 25f5610..8316eb0 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -35,6 +35,9 @@ static PyObject* TreeNode___new__(PyTypeObject* type, PyObject *args, PyObject *
     // Assume that arguments are in the order below. Python code is such that this is true.
     self->key = PyObject_GetItem(args, PyZero);
     self->data = PyObject_GetItem(args, PyOne);
+    if (!self->key || !self->data) {
+        return NULL;
+    }
 
     Py_INCREF(Py_None);
     self->left = Py_None;
-- 
2.43.0


From fbb3e90279be650cb4361d3bbc5e0002c5dedd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 126/160] fix: search trees must refuse None as a key instead
 of storing data without one or crashing

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 4 ++++
 pydatastructs/trees/binary_trees.py                   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index c7c9c00..a948689 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -174,6 +174,10 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args,
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &data)) { // data is optional
         return NULL;
     }
+    if (key == Py_None) { // a root without a key stands for an empty tree
+        PyErr_SetString(PyExc_ValueError, "Key required.");
+        return NULL;
+    }
 
     Py_INCREF(key);
     Py_INCREF(data);
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index c2bb94e..9d4b62b 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -253,6 +253,8 @@ class BinarySearchTree(BinaryTree):
         return new_indices[node.key]
 
     def insert(self, key, data=None):
+        if key is None:
+            raise ValueError('Key required.')
         res = self.search(key)
         if res is not None:
             self.tree[res].data = data
-- 
2.43.0


From 9a2d2ec70add07e318fbe0934068bdcde1e59b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:57 +0000
Subject: [PATCH 127/160] fix: a Cartesian tree must give the root made by its
 constructor a priority, also to be printed

---
 pydatastructs/trees/binary_trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9d4b62b..776f836 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -840,7 +840,11 @@ class CartesianTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.CartesianTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        obj.tree[obj.root_idx] = CartesianTreeNode(root.key, 0, root.data)
+        obj.tree[obj.root_idx].is_root = True
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From 59153709084df07260aa00036cc94c6898ba7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:28 +0000
Subject: [PATCH 128/160] fix: C++ trees made with too few arguments must raise
 instead of crashing

---
 pydatastructs/trees/_backend/cpp/BinaryTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index 12c39fd..88d469d 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -32,6 +32,9 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
     PyObject *root_data = PyObject_GetItem(args, PyOne);
     PyObject *comp = PyObject_GetItem(args, PyTwo);
     PyObject *is_order_statistic = PyObject_GetItem(args, PyThree);
+    if (!key || !root_data || !comp || !is_order_statistic) {
+        return NULL;
+    }
     if ( (key == Py_None) && (root_data != Py_None) ) {
         PyErr_SetString(PyExc_ValueError, "Key required.");
         return NULL;
-- 
2.43.0


From 34cc5e2a69066e5eb3eeba5e3c40bb4a52f5509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 129/160] fix: C++ arrays of more elements than memory can hold
 must raise instead of writing beyond the allocation

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 13b851f..074ae02 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -174,7 +174,9 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
                 Py_DECREF(args0);
                 return NULL;
             }
-            self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
+            if (self->_size <= PY_SSIZE_T_MAX / sizeof(PyObject*)) {
+                self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
+            }
             if (!self->_data) {
                 Py_DECREF(args0);
                 PyErr_NoMemory();
@@ -193,7 +195,9 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
                 return NULL;
             }
             self->_size = (size_t)size_ssize;
-            self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
+            if (self->_size <= PY_SSIZE_T_MAX / sizeof(PyObject*)) {
+                self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
+            }
             if (!self->_data) {
                 Py_DECREF(args0);
                 PyErr_NoMemory();
-- 
2.43.0


From 7c91e7c433af811be9fab00bf49eebec09994c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 130/160] fix: setting a C++ graph node's adjacent nodes must
 not lose them when the new ones are refused

---
 .../utils/_backend/cpp/AdjacencyListGraphNode.hpp   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index d29af9a..25b6e08 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -174,7 +174,7 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         return -1;
     }
 
-    self->adjacent.clear();
+    std::unordered_map<std::string, PyObject*> adjacent;
 
     PyObject *key, *val;
     Py_ssize_t pos = 0;
@@ -188,8 +188,15 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         if (!key_str) {
             return -1;
         }
-        Py_INCREF(val);
-        self->adjacent[key_str] = val;
+        adjacent[key_str] = val;
+    }
+
+    for (auto& pair : adjacent) {
+        Py_INCREF(pair.second);
+    }
+    self->adjacent.swap(adjacent);
+    for (auto& pair : adjacent) {
+        Py_XDECREF(pair.second);
     }
 
     return 0;
-- 
2.43.0


From cea90d57895ee8cc46c3992b8c27ad47502de6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:18 +0000
Subject: [PATCH 131/160] fix: linked lists must keep their size and end when
 given an index between two places or something that is no node

---
 .../linear_data_structures/linked_lists.py       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index bb6958e..c2bf601 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index < 0 or index >= self.size:
+        if index not in range(self.size):
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -261,11 +261,11 @@ class DoublyLinkedList(LinkedList):
         'insert_before', 'insert_at', 'extract']
 
     def insert_after(self, prev_node, key, data=None):
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                  links=['next', 'prev'],
                                  addrs=[None, None])
         new_node.next = prev_node.next
+        self.size += 1
         if new_node.next is not None:
             new_node.next.prev = new_node
         prev_node.next = new_node
@@ -275,11 +275,11 @@ class DoublyLinkedList(LinkedList):
             self.tail = new_node
 
     def insert_before(self, next_node, key, data=None):
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                  links=['next', 'prev'],
                                  addrs=[None, None])
         new_node.prev = next_node.prev
+        self.size += 1
         next_node.prev = new_node
         new_node.next = next_node
         if new_node.prev is not None:
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index < 0 or index > self.size:
+        if index not in range(self.size + 1):
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index < 0 or index >= self.size:
+        if index not in range(self.size):
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -411,11 +411,11 @@ class SinglyLinkedList(LinkedList):
         'extract']
 
     def insert_after(self, prev_node, key, data=None):
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                  links=['next'],
                                  addrs=[None])
         new_node.next = prev_node.next
+        self.size += 1
         prev_node.next = new_node
 
         if new_node.next is None:
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index < 0 or index > self.size:
+        if index not in range(self.size + 1):
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index < 0 or index >= self.size:
+        if index not in range(self.size):
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From 47f02a21e8627fa253d70fa62f2e86f567d8b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:23 +0000
Subject: [PATCH 132/160] fix: a heap must stay as it was when a key that can't
 be compared is refused

---
 pydatastructs/trees/heaps.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index b2fd2ad..499458d 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -160,20 +160,27 @@ class DHeap(Heap):
 
         None
         """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
+        # all comparisons are made before anything changes,
+        # they fail for a key which can't be compared
+        i = self._last_pos_filled + 1
+        path = [i]
         while True:
             parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+            if i == 0 or self._comp(self.heap[parent].key, key):
                 break
             else:
-                self._swap(i, parent)
+                path.append(parent)
                 i = parent
 
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+        for parent in path[1:]:
+            self._swap(i, parent)
+            i = parent
+
     def extract(self):
         """
         Extract root element of the Heap.
-- 
2.43.0


From 9265126f7d38f0eda445a19b2d4d12715c5f6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:28 +0000
Subject: [PATCH 133/160] fix: a multiset must not count an element its tree
 refuses

---
 pydatastructs/miscellaneous_data_structures/multiset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..6de7d8d 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -14,10 +14,10 @@ class Multiset:
             self.add(arg)
 
     def add(self, element):
+        if self.counter.get(element, 0) == 0:
+            self.tree.insert(element)
         self.counter[element]  = self.counter.get(element, 0) + 1
         self._n += 1
-        if self.counter[element] == 1:
-            self.tree.insert(element)
 
     def remove(self, element):
         if self.counter[element] == 1:
-- 
2.43.0


From 04787365c52cedb169b8bfcf5e8370dc06d4de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:33 +0000
Subject: [PATCH 134/160] fix: a Cartesian tree must refuse a priority that
 can't be compared before it changes

---
 pydatastructs/trees/binary_trees.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 776f836..8a35263 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -880,6 +880,11 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
+        root = self.tree[self.root_idx]
+        if root.key is not None:
+            # fails for a priority which can't be compared,
+            # before anything changes
+            root.priority > priority
         if super(CartesianTree, self).search(key) is not None:
             CartesianTree.delete(self, key)
         super(CartesianTree, self).insert(key, data)
-- 
2.43.0


From cd2fb0401c2560f3b016981dd92b822f1a622f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:33 +0000
Subject: [PATCH 135/160] fix: a skip list must tell infinite keys from the
 ends of its levels

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index c2bf601..008c654 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -691,7 +691,9 @@ class SkipList(object):
         return path
 
     def search(self, key) -> bool:
-        return self._search(key)[-1].next.key == key
+        node = self._search(key)[-1].next
+        # only the ends of a level have nothing after them
+        return node.next is not None and node.key == key
 
     def insert(self, key, data=None):
         """
@@ -746,12 +748,12 @@ class SkipList(object):
         """
         path = self._search(key)
         tip = path[-1]
-        if tip.next.key != key:
+        if tip.next.next is None or tip.next.key != key:
             raise KeyError('Node with key %s is not there in %s'%(key, self))
         return_node = SkipNode(tip.next.key, tip.next.data)
         total_level = self._levels
         level = total_level - 1
-        while level >= 0 and path[level].next.key == key:
+        while level >= 0 and path[level].next.next is not None and path[level].next.key == key:
             path[level].next = path[level].next.next
             level -= 1
         walk = self.head
@@ -777,7 +779,7 @@ class SkipList(object):
             curr_node = walk
             col = 0
             while curr_node is not None:
-                if curr_node.key != math.inf and curr_node.key != -math.inf:
+                if curr_node is not walk and curr_node.next is not None:
                     node2row[curr_node] = curr_level
                     if walk.down is None:
                         node2col[curr_node.key] = col
-- 
2.43.0


From aa4fb850bc432812c6fb67c9d8f0ff24b13af5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:15 +0000
Subject: [PATCH 136/160] fix: merging binomial heaps with keys that can't be
 compared must be refused before it changes them

---
 pydatastructs/trees/heaps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 499458d..01cbf73 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -463,6 +463,11 @@ class BinomialHeap(Heap):
         """
         if not _check_type(other_heap, BinomialHeap):
             raise TypeError("Other heap is not of type BinomialHeap.")
+        for tree, other_tree in zip(self.root_list[:1], other_heap.root_list[:1]):
+            if tree and other_tree and tree.root and other_tree.root:
+                # fails for keys which can't be compared,
+                # before anything changes
+                tree.root.key <= other_tree.root.key
         new_root_list = []
         i, j = 0, 0
         while (i < len(self.root_list)) and \
-- 
2.43.0


From 5a2f3e62b818d4346387c5b3ce0a56f2b752f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:31 +0000
Subject: [PATCH 137/160] fix: an array deque must not take on the type of an
 element appendleft refuses

---
 pydatastructs/miscellaneous_data_structures/queue.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index c50e60c..794335e 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -156,7 +156,6 @@ class ArrayQueue(Queue):
         if self.is_empty:
             self._front = 0
             self._rear = -1
-        self.items._dtype = type(x)
         temp.append(x)
         for i in range(self._front, self._rear + 1):
             temp.append(self.items._data[i])
-- 
2.43.0


From 7d862e48bfb8ba36c37fd1cc0a6a62ecc218a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:31 +0000
Subject: [PATCH 138/160] fix: minimum_spanning_tree must refuse the name of a
 parallel algorithm

---
 pydatastructs/graphs/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 0bef9a3..25e1da1 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -348,7 +348,8 @@ def minimum_spanning_tree(graph, algorithm, **kwargs):
     if backend == Backend.PYTHON:
         import pydatastructs.graphs.algorithms as algorithms
         func = "_minimum_spanning_tree_" + algorithm + "_" + graph._impl
-        if not hasattr(algorithms, func):
+        if algorithm not in ('kruskal', 'prim') or \
+            not hasattr(algorithms, func):
             raise NotImplementedError(
             "Currently %s algoithm for %s implementation of graphs "
             "isn't implemented for finding minimum spanning trees."
-- 
2.43.0


From fcc21e518dd8412c2ab3b2fc2049239869001d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:09 +0000
Subject: [PATCH 139/160] fix: a sparse table must not convert what it holds to
 int

---
 pydatastructs/miscellaneous_data_structures/sparse_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/sparse_table.py b/pydatastructs/miscellaneous_data_structures/sparse_table.py
index 55ec4e9..e4b1d89 100644
--- a/pydatastructs/miscellaneous_data_structures/sparse_table.py
+++ b/pydatastructs/miscellaneous_data_structures/sparse_table.py
@@ -65,7 +65,7 @@ class SparseTable(object):
         obj = object.__new__(cls)
         size = len(array)
         log_size = int(math.log2(size)) + 1
-        obj._table = [OneDimensionalArray(int, log_size) for _ in range(size)]
+        obj._table = [OneDimensionalArray(object, log_size) for _ in range(size)]
         obj.func = func
 
         for i in range(size):
-- 
2.43.0


From 4c0afb5ac4a72eb83c9030794f7a7b158934f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:15 +0000
Subject: [PATCH 140/160] fix: an array segment tree must answer with elements
 as its array holds them

---
 pydatastructs/miscellaneous_data_structures/segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/segment_tree.py b/pydatastructs/miscellaneous_data_structures/segment_tree.py
index b960203..05e34b3 100644
--- a/pydatastructs/miscellaneous_data_structures/segment_tree.py
+++ b/pydatastructs/miscellaneous_data_structures/segment_tree.py
@@ -187,7 +187,8 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
             start, end = node.key
             if start == end:
                 self._array[index] = value
-                node.data = value
+                # as the array holds it, which may convert it
+                node.data = self._array[index]
                 recursion_stack.pop()
                 if not recursion_stack.is_empty:
                     parent_node = recursion_stack.pop()
-- 
2.43.0


From 273dc876cf91dc8246e1791973fa05a21cd370c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:15 +0000
Subject: [PATCH 141/160] fix: a skip list must take keys that don't compare
 with infinity

---
 pydatastructs/linear_data_structures/linked_lists.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 008c654..669ef2b 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -683,7 +683,8 @@ class SkipList(object):
         path = []
         node = self.head
         while node:
-            if node.next.key >= key:
+            # nothing comes after the end of a level, whatever the keys are
+            if node.next.next is None or node.next.key >= key:
                 path.append(node)
                 node = node.down
             else:
-- 
2.43.0


From 43ce505f0c00e8acb111a3dea95a79a1a63037e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 142/160] fix: a C++ Cartesian tree must pass on what its
 comparator raises in a deletion

---
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index ef83264..bd082b3 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -141,7 +141,9 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
         return NULL;
     }
     if (found != Py_None) {
-        CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New());
+        if (CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New()) == NULL) {
+            return NULL;
+        }
     }
     if (SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data)) == NULL) {
         return NULL;
-- 
2.43.0


From 6bf99e7285b51fd864fbb219b99268a4aa1f6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:58 +0000
Subject: [PATCH 143/160] fix: the C++ trees must take any non-zero answer of a
 comparator for true

---
 .../trees/_backend/cpp/BinarySearchTree.hpp    | 18 +++++++++---------
 pydatastructs/trees/_backend/cpp/SplayTree.hpp |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index a948689..111e1ad 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -128,7 +128,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        long long comp = PyLong_AsLongLong(res);
+        long long comp = PyObject_IsTrue(res);
 
         if (comp == 1) {
             walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
@@ -221,7 +221,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args,
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        long long comp = PyLong_AsLongLong(cres);
+        long long comp = PyObject_IsTrue(cres);
 
         if (comp==0) {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
@@ -427,7 +427,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long comp = PyLong_AsLongLong(cres);
+    long long comp = PyObject_IsTrue(cres);
 
     if (comp == 1) {
         return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)",reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->right, bound_key, is_upper));
@@ -573,7 +573,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long u_left = PyLong_AsLongLong(cres1);
+    long long u_left = PyObject_IsTrue(cres1);
 
     if (!PyCallable_Check(bt->comparator)) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
@@ -589,7 +589,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long v_left = PyLong_AsLongLong(cres2);
+    long long v_left = PyObject_IsTrue(cres2);
 
     while (!(u_left ^ v_left)) {
         if (u_left && v_left) {
@@ -621,7 +621,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        u_left = PyLong_AsLongLong(cres1);
+        u_left = PyObject_IsTrue(cres1);
 
         if (!PyCallable_Check(bt->comparator)) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
@@ -637,7 +637,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        v_left = PyLong_AsLongLong(cres2);
+        v_left = PyObject_IsTrue(cres2);
     }
 
     if (curr_root == Py_None) {
@@ -734,7 +734,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
             }
-            long long comp = PyLong_AsLongLong(cres);
+            long long comp = PyObject_IsTrue(cres);
 
             if (left_walk != Py_None && comp) {
                 walk = left_walk;
@@ -763,7 +763,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
             }
-            long long comp = PyLong_AsLongLong(cres);
+            long long comp = PyObject_IsTrue(cres);
 
             if (right_walk != Py_None && (!comp)) {
                 walk = right_walk;
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 40e2f12..26b4d43 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -248,7 +248,7 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long comp = PyLong_AsLongLong(cres);
+    long long comp = PyObject_IsTrue(cres);
     if (comp == 0) {
         PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
         return NULL;
-- 
2.43.0


From 5e27662a7b2b542cd14f100c26b7a4d3ab4a385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:30 +0000
Subject: [PATCH 144/160] fix: a deletion from a C++ AVL tree must not crash
 when the comparator raises

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 74198b3..f688a16 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -343,6 +343,9 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+    if (a == NULL) {
+        return NULL;
+    }
     AVLTree__balance_delete(self, Py_BuildValue("(OO)", a, key));
 
     Py_RETURN_TRUE;
-- 
2.43.0


From 90b662ba62b045dddfe280eda302fbd1936f0dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:40 +0000
Subject: [PATCH 145/160] fix: a segment tree update its function refuses must
 not leave the array changed

---
 .../miscellaneous_data_structures/segment_tree.py  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pydatastructs/miscellaneous_data_structures/segment_tree.py b/pydatastructs/miscellaneous_data_structures/segment_tree.py
index 05e34b3..1b8d9f2 100644
--- a/pydatastructs/miscellaneous_data_structures/segment_tree.py
+++ b/pydatastructs/miscellaneous_data_structures/segment_tree.py
@@ -179,6 +179,18 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
             raise ValueError("{} tree is not built yet. ".format(self) +
                              "Call .build method to prepare the segment tree.")
 
+        replaced = []
+        try:
+            self._update(index, value, replaced)
+        except Exception:
+            # the function may refuse the value
+            for node, data in replaced:
+                node.data = data
+                if node.left is None:
+                    self._array[index] = data
+            raise
+
+    def _update(self, index, value, replaced):
         recursion_stack = Stack(implementation='linked_list')
         recursion_stack.push((self._root, None))
 
@@ -187,6 +199,7 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
             start, end = node.key
             if start == end:
                 self._array[index] = value
+                replaced.append((node, node.data))
                 # as the array holds it, which may convert it
                 node.data = self._array[index]
                 recursion_stack.pop()
@@ -196,6 +209,7 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
                 continue
 
             if child is not None:
+                replaced.append((node, node.data))
                 node.data = self._func((node.left.data, node.right.data))
                 recursion_stack.pop()
                 if not recursion_stack.is_empty:
-- 
2.43.0


From 154b5aa67976a63b8e84c3b7d4f84d7f3b9aaba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:48 +0000
Subject: [PATCH 146/160] fix: extracting from a d-ary heap must not lose its
 root when keys can't be compared

---
 pydatastructs/trees/heaps.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 01cbf73..df59fcf 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -143,6 +143,22 @@ class DHeap(Heap):
             else:
                 break
 
+    def _path_down(self, key, last_pos_filled):
+        # positions which the key passes down from the root
+        path, i = [], 0
+        while True:
+            target, target_key = i, key
+            for j in range(self.d*i + 1, self.d*i + self.d + 1):
+                if j <= last_pos_filled:
+                    if self._comp(self.heap[j].key, target_key):
+                        target, target_key = j, self.heap[j].key
+                else:
+                    break
+            if target == i:
+                return path
+            path.append(target)
+            i = target
+
     def insert(self, key, data=None):
         """
         Insert a new element to the heap according to heap property.
@@ -199,10 +215,17 @@ class DHeap(Heap):
             raise IndexError("Heap is empty.")
         else:
             element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            # all comparisons are made before anything changes,
+            # they fail for keys which can't be compared
+            path = self._path_down(self.heap[self._last_pos_filled].key,
+                                   self._last_pos_filled - 1)
             self._swap(0, self._last_pos_filled)
             self.heap.delete(self._last_pos_filled)
             self._last_pos_filled -= 1
-            self._heapify(0)
+            i = 0
+            for child in path:
+                self._swap(child, i)
+                i = child
             return element_to_be_extracted
 
     def __str__(self):
-- 
2.43.0


From 2912de2f4ce320733b5600351765602aea015c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 147/160] fix: a binomial heap operation refused for keys that
 can't be compared must change nothing

---
 pydatastructs/trees/heaps.py | 51 ++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index df59fcf..3e6d197 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -486,11 +486,22 @@ class BinomialHeap(Heap):
         """
         if not _check_type(other_heap, BinomialHeap):
             raise TypeError("Other heap is not of type BinomialHeap.")
-        for tree, other_tree in zip(self.root_list[:1], other_heap.root_list[:1]):
-            if tree and other_tree and tree.root and other_tree.root:
-                # fails for keys which can't be compared,
-                # before anything changes
-                tree.root.key <= other_tree.root.key
+        trees = [(tree, tree.order, tree.root.parent)
+                 for tree in self.root_list + other_heap.root_list
+                 if tree is not None and tree.root is not None]
+        try:
+            self.root_list = self._merged_root_list(other_heap)
+        except Exception:
+            # keys may not be comparable, the merges made so far are undone
+            for tree, order, parent in trees:
+                while tree.order > order:
+                    tree.order -= 1
+                    tree.root.children.delete(tree.root.children._last_pos_filled)
+                tree.root.parent = parent
+                tree.root.is_root = True
+            raise
+
+    def _merged_root_list(self, other_heap):
         new_root_list = []
         i, j = 0, 0
         while (i < len(self.root_list)) and \
@@ -522,7 +533,7 @@ class BinomialHeap(Heap):
             new_tree = other_heap.root_list[j]
             self._merge_heap_last_new_tree(new_root_list, new_tree)
             j += 1
-        self.root_list = new_root_list
+        return new_root_list
 
     def insert(self, key, data=None):
         """
@@ -581,9 +592,15 @@ class BinomialHeap(Heap):
         for k, child in enumerate(min_node.children):
             if child is not None:
                 child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[idx])
+        tree = self.root_list.pop(idx)
         child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
+        try:
+            self.merge(child_heap)
+        except Exception:
+            self.root_list.insert(idx, tree)
+            for child_tree in child_root_list:
+                child_tree.root.is_root = False
+            raise
 
     @property
     def is_empty(self):
@@ -605,9 +622,13 @@ class BinomialHeap(Heap):
         if node.key <= new_key:
             raise ValueError("The new key "
             "should be less than current node's key.")
+        # all comparisons are made before anything changes
+        position = node
+        while ((not position.is_root) and
+               (position.parent.key > new_key)):
+            position = position.parent
         node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
+        while node is not position:
             node.parent.key, node.key = \
                 node.key, node.parent.key
             node.parent.data, node.data = \
@@ -624,13 +645,21 @@ class BinomialHeap(Heap):
         node: BinomialTreeNode
             The node which is to be deleted.
         """
+        path = [node]
         while not node.is_root:
             node.parent.key, node.key = \
                 node.key, node.parent.key
             node.parent.data, node.data = \
                 node.data, node.parent.data
             node = node.parent
+            path.append(node)
         for idx, tree in enumerate(self.root_list):
             if tree.root is node:
-                self._delete_root(idx)
+                try:
+                    self._delete_root(idx)
+                except Exception:
+                    for child, parent in list(zip(path, path[1:]))[::-1]:
+                        parent.key, child.key = child.key, parent.key
+                        parent.data, child.data = child.data, parent.data
+                    raise
                 break
-- 
2.43.0


From 9619d20a0617ab8e9ee2aa5da4f95d0c89e72288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 148/160] fix: a Cartesian tree must not change when a priority
 can't be compared with one on its way

---
 pydatastructs/trees/binary_trees.py | 32 ++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 8a35263..b9117b2 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -879,12 +879,36 @@ class CartesianTree(SelfBalancingBinaryTree):
                 self._left_rotate(node_idx, self.tree[node_idx].right)
             node = self.tree[node_idx]
 
+    def _path_to_leaf(self, key):
+        # the nodes above the leaf that holds the key after
+        # trickling it down, or that its insertion makes
+        path, walk = [], self.root_idx
+        while walk is not None and self.tree[walk].key != key:
+            path.append(walk)
+            if self.comparator(key, self.tree[walk].key):
+                walk = self.tree[walk].left
+            else:
+                walk = self.tree[walk].right
+        if walk is not None:
+            left, right = self.tree[walk].left, self.tree[walk].right
+            while left is not None or right is not None:
+                if right is None or (left is not None and
+                    self.tree[left].priority < self.tree[right].priority):
+                    path.append(left)
+                    left = self.tree[left].right
+                else:
+                    path.append(right)
+                    right = self.tree[right].left
+        return path
+
     def insert(self, key, priority, data=None):
         root = self.tree[self.root_idx]
         if root.key is not None:
-            # fails for a priority which can't be compared,
-            # before anything changes
-            root.priority > priority
+            # all comparisons are made before anything changes,
+            # they fail for a priority which can't be compared
+            for idx in reversed(self._path_to_leaf(key)):
+                if not self.tree[idx].priority > priority:
+                    break
         if super(CartesianTree, self).search(key) is not None:
             CartesianTree.delete(self, key)
         super(CartesianTree, self).insert(key, data)
@@ -905,6 +929,8 @@ class CartesianTree(SelfBalancingBinaryTree):
         balancing_info = kwargs.get('balancing_info', False)
         node_idx = super(CartesianTree, self).search(key)
         if node_idx is not None:
+            # all comparisons are made before anything changes
+            self._path_to_leaf(key)
             self._trickle_down(node_idx)
             return super(CartesianTree, self).delete(key, balancing_info = balancing_info)
 
-- 
2.43.0


From a3db15e4df2ae9a701f4a8b44d8832984f516765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:00 +0000
Subject: [PATCH 149/160] fix: the LLVM sorts must find their code from any
 working directory

---
 .../cpp/algorithms/quadratic_time_sort.hpp    | 64 ++-----------------
 1 file changed, 4 insertions(+), 60 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 2875d0a..8fe6c63 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -210,36 +210,8 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
     }
 
     auto get_addr = [&](const char* dtype_str) -> PyObject* {
-        PyObject* sys = PyImport_ImportModule("sys");
-        PyObject* sys_path = PyObject_GetAttrString(sys, "path");
-        Py_DECREF(sys);
-
-        Py_ssize_t original_len = PyList_Size(sys_path);
-        if (original_len == -1) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* path = PyUnicode_FromString("pydatastructs/linear_data_structures/_backend/cpp/algorithms");
-        if (!path) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        int append_result = PyList_Append(sys_path, path);
-        Py_DECREF(path);
-
-        if (append_result != 0) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* mod = PyImport_ImportModule("llvm_algorithms");
-
-        if (PyList_SetSlice(sys_path, original_len, original_len + 1, NULL) != 0) {
-            PyErr_Clear();
-        }
-        Py_DECREF(sys_path);
+        PyObject* mod = PyImport_ImportModule(
+            "pydatastructs.linear_data_structures._backend.cpp.algorithms.llvm_algorithms");
         if (!mod) {
             return NULL;
         }
@@ -814,36 +786,8 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
     }
 
     auto get_addr = [&](const char* dtype_str) -> PyObject* {
-        PyObject* sys = PyImport_ImportModule("sys");
-        PyObject* sys_path = PyObject_GetAttrString(sys, "path");
-        Py_DECREF(sys);
-
-        Py_ssize_t original_len = PyList_Size(sys_path);
-        if (original_len == -1) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* path = PyUnicode_FromString("pydatastructs/linear_data_structures/_backend/cpp/algorithms");
-        if (!path) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        int append_result = PyList_Append(sys_path, path);
-        Py_DECREF(path);
-
-        if (append_result != 0) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* mod = PyImport_ImportModule("llvm_algorithms");
-
-        if (PyList_SetSlice(sys_path, original_len, original_len + 1, NULL) != 0) {
-            PyErr_Clear();
-        }
-        Py_DECREF(sys_path);
+        PyObject* mod = PyImport_ImportModule(
+            "pydatastructs.linear_data_structures._backend.cpp.algorithms.llvm_algorithms");
         if (!mod) {
             return NULL;
         }
-- 
2.43.0


From de6456109306b768a9991d4cbc4e3f0738e4fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:25 +0000
Subject: [PATCH 150/160] fix: the LLVM sorts must leave an array alone when
 the range ends before it

---
 .../_backend/cpp/algorithms/quadratic_time_sort.hpp       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 8fe6c63..67b4fa2 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -123,6 +123,10 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
     if (end_obj && end_obj != Py_None) {
         Py_ssize_t end_val = PyLong_AsSsize_t(end_obj);
         if (PyErr_Occurred()) return NULL;
+        if (end_val < 0) {
+            Py_INCREF(arr_obj);
+            return arr_obj;
+        }
         upper = (size_t)end_val;
     }
 
@@ -699,6 +703,10 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
     if (end_obj && end_obj != Py_None) {
         Py_ssize_t end_val = PyLong_AsSsize_t(end_obj);
         if (PyErr_Occurred()) return NULL;
+        if (end_val < 0) {
+            Py_INCREF(arr_obj);
+            return arr_obj;
+        }
         upper = (size_t)end_val;
     }
 
-- 
2.43.0


From 55276f676fb5286a8e48ebeada84f42f8ec7c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:05 +0000
Subject: [PATCH 151/160] fix: the permutation of a range that ends well before
 its start must be an empty array

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 3c2986a..b49695b 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1151,7 +1151,7 @@ def longest_increasing_subsequence(array, **kwargs):
     return ans_ODA
 
 def _permutation_util(array, start, end, comp, perm_comp):
-    size = end - start + 1
+    size = max(end - start + 1, 0)
     permute = OneDimensionalArray(array._dtype, size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
-- 
2.43.0


From c0f920f9796297f1b33ffb5bc020c9def9333ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:15 +0000
Subject: [PATCH 152/160] fix: a one-dimensional array of negative size must be
 refused

---
 pydatastructs/linear_data_structures/arrays.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 124cefd..417ae37 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -105,6 +105,9 @@ class OneDimensionalArray(Array):
 
         elif len(args) == 1:
             if _check_type(args[0], int):
+                if args[0] < 0:
+                    raise ValueError("Size of a 1D array cannot be "
+                                     "negative, got %s"%(args[0]))
                 obj._size = args[0]
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
-- 
2.43.0


From 024c5082af70f73ddb0e3096ee67fa3d05b499ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:18 +0000
Subject: [PATCH 153/160] fix: Prim's algorithm must return the empty tree of a
 graph without vertices

---
 pydatastructs/graphs/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 25e1da1..fe5105b 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -265,6 +265,8 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     q = PriorityQueue(implementation='binomial_heap')
     e = {}
     mst = Graph(implementation='adjacency_list')
+    if graph.num_vertices() == 0:
+        return mst
     q.push(next(iter(graph.vertices)), 0)
     while not q.is_empty:
         v = q.pop()
@@ -392,6 +394,8 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
     e = [{} for _ in range(num_threads)]
     v2q = {}
     mst = Graph(implementation='adjacency_list')
+    if graph.num_vertices() == 0:
+        return mst
 
     itr = iter(graph.vertices)
     for i in range(len(graph.vertices)):
-- 
2.43.0


From 507d7dc7f2d7e57e7d1815db45ef3987dffa972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:48 +0000
Subject: [PATCH 154/160] fix: an interval segment tree without segments must
 answer that none contains a point

---
 pydatastructs/trees/space_partitioning_trees.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index 089aff1..1dcfe6e 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -134,6 +134,12 @@ class OneDimensionalSegmentTree(object):
         """
         if self.cache:
             return None
+        if not self.segments:
+            # a single interval, which is in no segment
+            self.tree = [TreeNode([False, float('-inf'), float('inf'), False], None)]
+            self.root_idx, self.cache = -1, True
+            return None
+
         endpoints = []
         for segment in self.segments:
             endpoints.extend(segment)
-- 
2.43.0


From a6a7602dba0caa1be115cd8886ceb1295654de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:25 +0000
Subject: [PATCH 155/160] fix: trees must keep working with keys that are
 ordered but not hashable

---
 .../linear_data_structures/arrays.py          |  8 +-
 pydatastructs/trees/binary_trees.py           | 75 ++++++++-----------
 2 files changed, 37 insertions(+), 46 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 417ae37..35dcd26 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -482,15 +482,15 @@ class ArrayForTrees(DynamicOneDimensionalArray):
             for i in range(self._last_pos_filled + 1):
                 if self[i] is not None:
                     arr_new[j] = self[i]
-                    new_indices[self[i].key] = j
+                    new_indices[i] = j
                     j += 1
             for i in range(j):
                 if arr_new[i].left is not None:
-                    arr_new[i].left = new_indices[self[arr_new[i].left].key]
+                    arr_new[i].left = new_indices[arr_new[i].left]
                 if arr_new[i].right is not None:
-                    arr_new[i].right = new_indices[self[arr_new[i].right].key]
+                    arr_new[i].right = new_indices[arr_new[i].right]
                 if arr_new[i].parent is not None:
-                    arr_new[i].parent = new_indices[self[arr_new[i].parent].key]
+                    arr_new[i].parent = new_indices[arr_new[i].parent]
             self._last_pos_filled = j - 1
             self._data = arr_new._data
             self._size = arr_new._size
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index b9117b2..a16210e 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -242,15 +242,15 @@ class BinarySearchTree(BinaryTree):
     def _append_child(self, parent, side, node):
         # Links the node as a child before the array gets a chance to
         # move its elements, returns where the node is afterwards.
-        root_key = self.tree[self.root_idx].key
         node.parent = parent
-        setattr(self.tree[parent], side, self.tree._last_pos_filled + 1)
+        node_idx = self.tree._last_pos_filled + 1
+        setattr(self.tree[parent], side, node_idx)
         new_indices = self.tree.append(node)
         self.size += 1
         if new_indices is None:
-            return self.tree._last_pos_filled
-        self.root_idx = new_indices[root_key]
-        return new_indices[node.key]
+            return node_idx
+        self.root_idx = new_indices[self.root_idx]
+        return new_indices[node_idx]
 
     def insert(self, key, data=None):
         if key is None:
@@ -400,12 +400,10 @@ class BinarySearchTree(BinaryTree):
                 else:
                     self.tree[parent].right = None
                 a = parent
-                par_key, root_key = (self.tree[parent].key,
-                                     self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                    a = new_indices[a]
+                    self.root_idx = new_indices[self.root_idx]
             self._update_size(a)
 
         elif self.tree[walk].left is not None and \
@@ -427,12 +425,10 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.tree[twalk].right].parent = par
             if twalk is not None:
                 a = par
-                par_key, root_key = (self.tree[par].key,
-                                     self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(twalk)
                 if new_indices is not None:
-                    a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                    a = new_indices[a]
+                    self.root_idx = new_indices[self.root_idx]
             self._update_size(a)
 
         else:
@@ -449,10 +445,9 @@ class BinarySearchTree(BinaryTree):
                 for idx in (self.tree[child].left, self.tree[child].right):
                     if idx is not None:
                         self.tree[idx].parent = self.root_idx
-                root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
-                    self.root_idx = new_indices[root_key]
+                    self.root_idx = new_indices[self.root_idx]
                 a = self.root_idx
                 self._update_size(a)
             else:
@@ -462,13 +457,10 @@ class BinarySearchTree(BinaryTree):
                     self.tree[parent].right = child
                 self.tree[child].parent = parent
                 a = parent
-                par_key, root_key = (self.tree[parent].key,
-                                     self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                    a = new_indices[a]
+                    self.root_idx = new_indices[self.root_idx]
                 self._update_size(a)
 
         if kwargs.get("balancing_info", False) is not False:
@@ -1241,28 +1233,29 @@ class SplayTree(SelfBalancingBinaryTree):
             raise ValueError("Elements of %s aren't less "
                              "than that of %s"%(self, other))
         self.splay(maxm, self.tree[maxm].parent)
-        root_key = self.tree[self.root_idx].key
-        for node in other.tree:
+        indices = {}
+        for other_idx, node in enumerate(other.tree):
+            indices[other_idx] = self.tree._last_pos_filled + 1
             if node is not None:
-                self.tree.append(TreeNode(node.key, node.data))
+                new_indices = self.tree.append(TreeNode(node.key, node.data))
                 self.size += 1
             else:
-                self.tree.append(node)
-        indices = {node.key: idx for idx, node in enumerate(self.tree)
-                   if node is not None}
-        self.root_idx = indices[root_key]
-        for node in other.tree:
+                new_indices = self.tree.append(node)
+            if new_indices is not None:
+                self.root_idx = new_indices[self.root_idx]
+                indices = {old: new_indices[idx] for old, idx
+                           in indices.items() if idx in new_indices}
+        for other_idx, node in enumerate(other.tree):
             if node is not None:
-                node_copy = self.tree[indices[node.key]]
+                node_copy = self.tree[indices[other_idx]]
                 node_copy.size = node.size
                 if node.left is not None:
-                    node_copy.left = indices[other.tree[node.left].key]
+                    node_copy.left = indices[node.left]
                 if node.right is not None:
-                    node_copy.right = indices[other.tree[node.right].key]
+                    node_copy.right = indices[node.right]
                 node_copy.parent = self.root_idx if node.parent is None \
-                    else indices[other.tree[node.parent].key]
-        self.tree[self.root_idx].right = \
-            indices[other.tree[other.root_idx].key]
+                    else indices[node.parent]
+        self.tree[self.root_idx].right = indices[other.root_idx]
         self._update_size(self.root_idx)
 
     def split(self, x):
@@ -1576,19 +1569,17 @@ class RedBlackTree(SelfBalancingBinaryTree):
         parent = self._get_parent(node_idx)
         a = parent
         if self._is_leaf(node_idx):
-            par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
             if new_indices is not None:
-                a = new_indices[par_key]
-                self.root_idx = new_indices[root_key]
+                a = new_indices[a]
+                self.root_idx = new_indices[self.root_idx]
         elif self._has_one_child(node_idx):
             child = self._replace_node(node_idx)
             parent = self._get_parent(node_idx)
-            par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
             if new_indices is not None:
-                a = new_indices[par_key]
-                self.root_idx = new_indices[root_key]
+                a = new_indices[a]
+                self.root_idx = new_indices[self.root_idx]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1596,10 +1587,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
             self.tree[self.root_idx].data = None
             self.tree[self.root_idx].key = None
         elif self._has_one_child(node_idx):
-            root_key = self._transplant_values(node_idx, node_idx1)
+            self._transplant_values(node_idx, node_idx1)
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
-                self.root_idx = new_indices[root_key]
+                self.root_idx = new_indices[self.root_idx]
             self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
-- 
2.43.0


From 8f36cff7079661e67e3596f50619ea8a11f4ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:36 +0000
Subject: [PATCH 156/160] fix: C++ trees must keep working with keys that are
 ordered but not hashable

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp     |  8 ++---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 29 ++++++----------
 .../trees/_backend/cpp/RedBlackTree.hpp       | 16 ++++-----
 .../trees/_backend/cpp/SplayTree.hpp          | 34 ++++++++++---------
 4 files changed, 39 insertions(+), 48 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 39f7bef..2309658 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -102,7 +102,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
             if (_data[i] != Py_None) {
                 Py_INCREF(Py_None);
                 arr_new[j] = _data[i];
-                PyObject_SetItem(new_indices, reinterpret_cast<TreeNode*>(_data[i])->key, PyLong_FromLong(j));
+                PyObject_SetItem(new_indices, PyLong_FromLong(i), PyLong_FromLong(j));
                 j += 1;
             }
         }
@@ -110,17 +110,17 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         for(int i=0;i<j;i++) {
             if (reinterpret_cast<TreeNode*>(arr_new[i])->left != Py_None) {
                 reinterpret_cast<TreeNode*>(arr_new[i])->left = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->left)])->key
+                    new_indices, reinterpret_cast<TreeNode*>(arr_new[i])->left
                 );
             }
             if (reinterpret_cast<TreeNode*>(arr_new[i])->right != Py_None) {
                 reinterpret_cast<TreeNode*>(arr_new[i])->right = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->right)])->key
+                    new_indices, reinterpret_cast<TreeNode*>(arr_new[i])->right
                 );
             }
             if (reinterpret_cast<TreeNode*>(arr_new[i])->parent != Py_None) {
                 reinterpret_cast<TreeNode*>(arr_new[i])->parent = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->parent)])->key
+                    new_indices, reinterpret_cast<TreeNode*>(arr_new[i])->parent
                 );
             }
         }
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 111e1ad..1c0a3f0 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -153,16 +153,16 @@ static PyObject* BinarySearchTree__append_child(BinarySearchTree* self, PyObject
     // Links the node as a child before the array gets a chance to move its
     // elements, returns where the node is afterwards.
     BinaryTree* bt = self->binary_tree;
-    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     node->parent = parent;
-    *link = PyLong_FromLong(bt->tree->_last_pos_filled + 1);
+    PyObject* node_idx = PyLong_FromLong(bt->tree->_last_pos_filled + 1);
+    *link = node_idx;
     PyObject* new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("[O]", reinterpret_cast<PyObject*>(node)));
     bt->size = bt->size + 1;
     if (new_indices == Py_None) {
         return PyLong_FromLong(bt->tree->_last_pos_filled);
     }
-    bt->root_idx = PyObject_GetItem(new_indices, root_key);
-    return PyObject_GetItem(new_indices, node->key);
+    bt->root_idx = PyObject_GetItem(new_indices, bt->root_idx);
+    return PyObject_GetItem(new_indices, node_idx);
 }
 
 static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args, PyObject* kwds=NULL) {
@@ -288,12 +288,10 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = Py_None;
             }
             a = parent;
-            PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (new_indices != Py_None) {
-                a = PyDict_GetItem(new_indices, par_key);
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, a);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
         }
         BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -322,12 +320,10 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
 
         if (twalk != Py_None) {
             a = par;
-            PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(par)])->key;
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",twalk));
             if (new_indices != Py_None) {
-                a = PyDict_GetItem(new_indices, par_key);
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, a);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
         }
         BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -352,10 +348,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
                     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)])->parent = bt->root_idx;
                 }
             }
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
             if (new_indices != Py_None) {
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
             a = bt->root_idx;
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -369,12 +364,10 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             }
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = parent;
             a = parent;
-            PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (new_indices != Py_None) {
-                a = PyDict_GetItem(new_indices, par_key);
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, a);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3f4965d..d5e586a 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -450,22 +450,18 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
     PyObject* parent = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
     PyObject* a = parent;
     if (RedBlackTree__is_leaf(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
-        PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-        PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
         if (new_indices != Py_None) {
-            a = PyDict_GetItem(new_indices, par_key);
-            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+            a = PyDict_GetItem(new_indices, a);
+            bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
         }
     }
     else if (RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
         parent = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
-        PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-        PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
         if (new_indices != Py_None) {
-            a = PyDict_GetItem(new_indices, par_key);
-            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+            a = PyDict_GetItem(new_indices, a);
+            bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
         }
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
@@ -482,10 +478,10 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = Py_None;
     }
     else if (RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
-        PyObject* root_key = RedBlackTree__transplant_values(self, Py_BuildValue("(OO)", node_idx, node_idx1));
+        RedBlackTree__transplant_values(self, Py_BuildValue("(OO)", node_idx, node_idx1));
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx1));
         if (new_indices != Py_None) {
-            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+            bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
         }
         BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 26b4d43..669127d 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -5,6 +5,7 @@
 #include <Python.h>
 #include <structmember.h>
 #include <cstdlib>
+#include <vector>
 #include "../../../utils/_backend/cpp/utils.hpp"
 #include "../../../utils/_backend/cpp/TreeNode.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
@@ -255,55 +256,56 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     }
 
     SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
-    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
     long n = obt->tree->_one_dimensional_array->_size;
+    std::vector<long> indices(n, -1); // where the elements of the other tree are in this one
     for (long i=0; i<n; i++) {
         PyObject* node = obt->tree->_one_dimensional_array->_data[i];
+        indices[i] = bt->tree->_last_pos_filled + 1;
+        PyObject* new_indices;
         if (node != Py_None) {
             TreeNode* treenode = reinterpret_cast<TreeNode*>(node);
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
-            ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
+            new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
             bt->size = bt->size + 1;
         }
         else {
-            ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
             bt->tree->_num -= 1;
         }
-    }
-
-    PyObject* indices = PyDict_New();
-    for (long i=0; i<=bt->tree->_last_pos_filled; i++) {
-        PyObject* node = bt->tree->_one_dimensional_array->_data[i];
-        if (node != Py_None) {
-            PyDict_SetItem(indices, reinterpret_cast<TreeNode*>(node)->key, PyLong_FromLong(i));
+        if (new_indices != Py_None) {
+            bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
+            for (long k=0; k<=i; k++) {
+                PyObject* new_idx = PyDict_GetItem(new_indices, PyLong_FromLong(indices[k]));
+                indices[k] = new_idx ? PyLong_AsLong(new_idx) : -1;
+            }
         }
     }
-    bt->root_idx = PyDict_GetItem(indices, root_key);
+
     PyObject** other_data = obt->tree->_one_dimensional_array->_data;
     for (long i=0; i<n; i++) {
         if (other_data[i] == Py_None) {
             continue;
         }
         TreeNode* node = reinterpret_cast<TreeNode*>(other_data[i]);
-        TreeNode* node_copy = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyDict_GetItem(indices, node->key))]);
+        TreeNode* node_copy = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[indices[i]]);
         node_copy->size = node->size;
         if (node->left != Py_None) {
-            node_copy->left = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(node->left)])->key);
+            node_copy->left = PyLong_FromLong(indices[PyLong_AsLong(node->left)]);
         }
         if (node->right != Py_None) {
-            node_copy->right = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(node->right)])->key);
+            node_copy->right = PyLong_FromLong(indices[PyLong_AsLong(node->right)]);
         }
         if (node->parent == Py_None) {
             node_copy->parent = bt->root_idx;
         }
         else {
-            node_copy->parent = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(node->parent)])->key);
+            node_copy->parent = PyLong_FromLong(indices[PyLong_AsLong(node->parent)]);
         }
     }
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyDict_GetItem(indices, reinterpret_cast<TreeNode*>(other_data[PyLong_AsLong(obt->root_idx)])->key);
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyLong_FromLong(indices[PyLong_AsLong(obt->root_idx)]);
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
 
     Py_RETURN_NONE;
-- 
2.43.0


From d283898eb7ddf7244a05af97ff84336e11173886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:22 +0000
Subject: [PATCH 157/160] fix: LLVM sorts report an array that refuses the
 converted values instead of returning it unsorted

---
 .../cpp/algorithms/quadratic_time_sort.hpp       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 67b4fa2..2c106c2 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -330,6 +330,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -343,6 +344,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
 
         } else {
@@ -398,6 +400,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -410,6 +413,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
         }
     }
@@ -483,6 +487,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -495,6 +500,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
         }
         else {
@@ -550,6 +556,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -561,6 +568,7 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
         }
 
@@ -910,6 +918,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -923,6 +932,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
 
         } else {
@@ -978,6 +988,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -990,6 +1001,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
         }
     }
@@ -1063,6 +1075,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -1075,6 +1088,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
         }
         else {
@@ -1130,6 +1144,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 int result = PyObject_SetItem(arr_obj, index_obj, new_value);
                 Py_DECREF(index_obj);
                 Py_DECREF(new_value);
+                if (result < 0) return NULL;
             }
 
             for (size_t i = buf.size(); i < N; i++) {
@@ -1141,6 +1156,7 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
                 Py_INCREF(Py_None);
                 int result = PyObject_SetItem(arr_obj, index_obj, Py_None);
                 Py_DECREF(index_obj);
+                if (result < 0) return NULL;
             }
         }
 
-- 
2.43.0


From beca6a98cee584af855f182a5e343c7796b3ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:45 +0000
Subject: [PATCH 158/160] fix: the string form of a skip list must show every
 one of equal keys, and keys that are not hashable

---
 pydatastructs/linear_data_structures/linked_lists.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 669ef2b..1ecf9c7 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -783,7 +783,7 @@ class SkipList(object):
                 if curr_node is not walk and curr_node.next is not None:
                     node2row[curr_node] = curr_level
                     if walk.down is None:
-                        node2col[curr_node.key] = col
+                        node2col[curr_node] = col
                     col += 1
                 curr_node = curr_node.next
             walk = walk.down
@@ -795,7 +795,10 @@ class SkipList(object):
             while curr_node is not None:
                 if curr_node in node2row:
                     row = node2row[curr_node]
-                    col = node2col[curr_node.key]
+                    base = curr_node
+                    while base.down is not None:
+                        base = base.down
+                    col = node2col[base]
                     sl_mat[row][col] = str(curr_node)
                 curr_node = curr_node.next
             walk = walk.down
-- 
2.43.0


From 1ddecf71c69481d1624d836a36b8eb1ea5a165b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:59 +0000
Subject: [PATCH 159/160] fix: an invalid tuple of segments must be refused
 with ValueError, not fail to be printed

---
 pydatastructs/trees/space_partitioning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index 1dcfe6e..f5f70b8 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -56,7 +56,7 @@ class OneDimensionalSegmentTree(object):
         obj = object.__new__(cls)
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
-                    raise ValueError('%s is invalid set of intervals'%(segs))
+                    raise ValueError('%s is invalid set of intervals'%(segs,))
         obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
-- 
2.43.0


From 6176b667f7fa5f95aabcccb4e39438f838c54d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:52 +0000
Subject: [PATCH 160/160] fix: all_pair_shortest_paths by Johnson destroyed a
 graph with a vertex named __q__

---
 pydatastructs/graphs/algorithms.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index fe5105b..3267b62 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1011,25 +1011,30 @@ def _floyd_warshall_adjacency_list(graph: Graph):
 _floyd_warshall_adjacency_matrix = _floyd_warshall_adjacency_list
 
 def _johnson_adjacency_list(graph: Graph):
-    new_vertex = AdjacencyListGraphNode('__q__')
+    q = '__q__'
+    # neither the vertex nor its edges may replace those of the graph
+    while q in graph.vertices or \
+        any(edge.startswith(q) for edge in graph.edge_weights):
+        q += 'q'
+    new_vertex = AdjacencyListGraphNode(q)
     graph.add_vertex(new_vertex)
 
     for vertex in graph.vertices:
-        if vertex != '__q__':
-            graph.add_edge('__q__', vertex, 0)
+        if vertex != q:
+            graph.add_edge(q, vertex, 0)
 
     try:
-        distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
+        distances, predecessors = shortest_paths(graph, 'bellman_ford', q)
     finally:
         edges_to_remove = []
         for edge in graph.edge_weights:
             edge_node = graph.edge_weights[edge]
-            if edge_node.source.name == '__q__':
+            if edge_node.source.name == q:
                 edges_to_remove.append((edge_node.source.name, edge_node.target.name))
 
         for u, v in edges_to_remove:
             graph.remove_edge(u, v)
-        graph.remove_vertex('__q__')
+        graph.remove_vertex(q)
 
     values = {}
     for edge in graph.edge_weights:
-- 
2.43.0

