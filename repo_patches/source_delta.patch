From cc30eb341faaf167f903c32a6adafd9c6d9df296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 01/84] fix: copy() of complex arrays threw instead of copying

---
 lube/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..805dea6 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, July 2013
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -297,6 +298,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        std::copy_n(iHeap->mData.cfp, mSize, mData.cfp);
+        break;
+    case TYPE_CDOUBLE:
+        std::copy_n(iHeap->mData.cdp, mSize, mData.cdp);
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From 0adc047fd8ff799a118874d315e1ca123df52cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 02/84] fix: array ordering was not lexicographic, so not an
 ordering at all

---
 lube/heap.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 805dea6..9202d28 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -463,12 +463,27 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
-    for (int i=0; i<std::min(size(), iHeap->size()); i++)
-        if (at(i) < iHeap->at(i))
-            return true;
-    return false;
+    // Lexicographic; a prefix is less than whatever extends it
+    int n = std::min(size(), iHeap->size());
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    {
+        int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
+        return c ? (c < 0) : (size() < iHeap->size());
+    }
+    bool pairs = (type() == TYPE_PAIR) && (iHeap->type() == TYPE_PAIR);
+    for (int i=0; i<n; i++)
+    {
+        for (int k=(pairs ? 1 : 0); k>=0; k--)
+        {
+            var a = at(i, k);
+            var b = iHeap->at(i, k);
+            if (a < b)
+                return true;
+            if (b < a)
+                return false;
+        }
+    }
+    return size() < iHeap->size();
 }
 
 
-- 
2.43.0


From ff7baf28d0046ce26cd71b1325c90f759df02484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 03/84] fix: maps with different keys but the same values
 compared equal

---
 lube/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 9202d28..02bbaf6 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -454,9 +454,16 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
+    bool pairs = (mType == TYPE_PAIR);
+    if (pairs != (iHeap->type() == TYPE_PAIR))
+        return true;
     for (int i=0; i<mSize; i++)
+    {
+        if (pairs && (at(i, true) != iHeap->at(i, true)))
+            return true;
         if (at(i) != iHeap->at(i))
             return true;
+    }
     return false;
 }
 
-- 
2.43.0


From 4d3b1041c01044086d24250e4646b89855e52393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 04/84] fix: views of var arrays and comparison of views used
 the descriptor

---
 lube/heap.cpp | 10 ++++++++--
 lube/heap.h   |  4 ++++
 lube/view.cpp |  8 ++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 02bbaf6..dba0806 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -454,10 +454,16 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    bool pairs = (mType == TYPE_PAIR);
+    bool pairs = (type() == TYPE_PAIR);
     if (pairs != (iHeap->type() == TYPE_PAIR))
         return true;
-    for (int i=0; i<mSize; i++)
+    if (dim() != iHeap->dim())
+        return true;
+    if (dim() > 1)
+        for (int i=0; i<dim(); i++)
+            if (shape(i) != iHeap->shape(i))
+                return true;
+    for (int i=0; i<size(); i++)
     {
         if (pairs && (at(i, true) != iHeap->at(i, true)))
             return true;
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..ad20f54 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,10 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual var at(int iIndex, bool iKey=false) const;
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..d538583 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -126,6 +126,14 @@ int View::offset(int iOffset)
 }
 
 
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
 int& View::shape(int iDim) const
 {
     int index = iDim*2 + 1;
-- 
2.43.0


From 2f065ede4a5b96cfc0655466b8b80865b344b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 05/84] fix: comparing nil dereferenced a null pointer

---
 lube/var.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..a3185df 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,9 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Only nil has no heap, and it is only equal to itself
+        if (!heap() || !iVar.heap())
+            return heap() != iVar.heap();
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +554,9 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // nil is less than any array
+        if (!heap() || !iVar.heap())
+            return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From e0a321aeb57f5fd4c1349593d24fc88032980cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 06/84] fix: comparing cdouble values recursed until the stack
 overflowed

---
 lube/heap.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index dba0806..33a2e0e 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -463,8 +463,16 @@ bool Heap::neq(IHeap* iHeap)
         for (int i=0; i<dim(); i++)
             if (shape(i) != iHeap->shape(i))
                 return true;
+    // A cdouble element is itself an array, so at() would recurse for ever
+    bool cd = (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE);
     for (int i=0; i<size(); i++)
     {
+        if (cd)
+        {
+            if (*ptrcdouble(i) != *iHeap->ptrcdouble(i))
+                return true;
+            continue;
+        }
         if (pairs && (at(i, true) != iHeap->at(i, true)))
             return true;
         if (at(i) != iHeap->at(i))
@@ -484,8 +492,18 @@ bool Heap::lt(IHeap* iHeap)
         return c ? (c < 0) : (size() < iHeap->size());
     }
     bool pairs = (type() == TYPE_PAIR) && (iHeap->type() == TYPE_PAIR);
+    // A cdouble element is itself an array, so at() would recurse for ever
+    bool cd = (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE);
     for (int i=0; i<n; i++)
     {
+        if (cd)
+        {
+            double a = std::abs(*ptrcdouble(i));
+            double b = std::abs(*iHeap->ptrcdouble(i));
+            if (a != b)
+                return a < b;
+            continue;
+        }
         for (int k=(pairs ? 1 : 0); k>=0; k--)
         {
             var a = at(i, k);
-- 
2.43.0


From e632c579d2ebadc69142f210fd2efd103733cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 07/84] fix: shrinking an array kept the removed elements;
 bound-check element access

---
 lube/heap.cpp | 10 ++++++++++
 lube/var.cpp  |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 33a2e0e..942c245 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -227,6 +227,16 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+    if (iSize < 0)
+        throw error("Heap::resize(): negative size");
+
+    // Elements that drop off the end should not come back if it grows again
+    if (mType == TYPE_VAR)
+        for (int i=iSize; i<mSize; i++)
+            mData.vp[i] = nil;
+    else if (mType == TYPE_PAIR)
+        for (int i=iSize; i<mSize; i++)
+            mData.pp[i].key = mData.pp[i].val = nil;
     mSize = iSize;
 
     // strings have an extra '\0'
diff --git a/lube/var.cpp b/lube/var.cpp
index a3185df..9d8ad11 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -817,6 +817,8 @@ var var::at(int iIndex) const
     v.dereference();
     if (!v)
         throw error("var::at(): uninitialised");
+    if ((iIndex < 0) || (iIndex >= v.size()))
+        throw error("var::at(): Index out of bounds");
     if (v.type() == TYPE_ARRAY)
         return v.reference(iIndex);
     if (iIndex == 0)
@@ -1097,7 +1099,10 @@ var& var::push(var iVar)
 
 var var::pop()
 {
-    var r = at(size()-1);
+    // The assignment (cf. construction) dereferences, so r is the value rather
+    // than a reference to the element that's about to disappear
+    var r;
+    r = at(size()-1);
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From c307c57e6df42122e36a7bd4005cf2f4105a3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 08/84] fix: remove() returned the wrong value, lost map keys
 and wrote through views

---
 lube/var.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 9d8ad11..23b0d13 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -590,11 +590,14 @@ bool var::operator <(var iVar) const
 var var::copy(bool iAllocOnly) const
 {
     // Deref and return if there's no heap
+    var r;
     if (!heap())
-        return *this;
+    {
+        r = *this;
+        return r;
+    }
 
     // It's a heap
-    var r;
     if (view())
         r.attach(new View(*heap(), iAllocOnly));
     else
@@ -1153,13 +1156,23 @@ var& var::insert(var iVar, int iIndex)
 
 var var::remove(int iIndex)
 {
-    assert(iIndex >= 0);
+    if (iIndex < 0)
+        throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
     var r = at(iIndex).copy();
+    bool pairs = heap() && atype<pair>();
+    bool clear = heap() && (atype<pair>() || atype<var>());
     for (int i=iIndex+1; i<size(); i++)
+    {
+        if (pairs)
+            heap()->key(i-1) = heap()->key(i);
+        // If it's a view then assignment alone would write through it
+        if (clear)
+            at(i-1).clear();
         at(i-1) = at(i);
+    }
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From ed2f589f5b2aceb95c3f25c87774733393e52484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 09/84] fix: insert() overflowed inserting an array into itself
 and wrote through views

---
 lube/var.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 23b0d13..e025834 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1117,6 +1117,8 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
+    if (iIndex < 0)
+        throw std::range_error("insert(): negative index");
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
@@ -1125,7 +1127,12 @@ var& var::insert(var iVar, int iIndex)
         // Implies array; insert a single var
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
+        {
+            // If it's a view then assignment alone would write through it
+            at(i).clear();
             at(i) = at(i-1);
+        }
+        at(iIndex).clear();
         at(iIndex) = iVar;
     }
     else if (heap() && atype<pair>())
@@ -1135,6 +1142,7 @@ var& var::insert(var iVar, int iIndex)
         for (int i=size()-1; i>iIndex; i--)
         {
             heap()->key(i) = heap()->key(i-1);
+            at(i).clear();
             at(i) = at(i-1);
         }
         heap()->key(iIndex) = iVar;
@@ -1143,11 +1151,14 @@ var& var::insert(var iVar, int iIndex)
     else
     {
         // It's a fundamental type, insert the whole array
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
-            at(iIndex+i) = iVar[i];
+        // Take a copy of an array in case it's the one being resized
+        var v = iVar.copy();
+        int n = v.size();
+        resize(size()+n);
+        for (int i=size()-1; i>iIndex+n-1; i--)
+            at(i) = at(i-n);
+        for (int i=0; i<n; i++)
+            at(iIndex+i) = v.at(i);
     }
 
     return *this;
-- 
2.43.0


From 663895865e3765bf8c2d78e8cf8e3b17a9fe96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 10/84] fix: append() of raw data to nil or to another type
 corrupted the heap

---
 lube/var.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index e025834..b05e045 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1049,6 +1049,13 @@ var var::atypeStr() const
 #define APPEND(T)                                               \
     template<> var& var::append<T>(int iSize, const T* iData)   \
     {                                                           \
+        if (!defined())                                         \
+        {                                                       \
+            dereference().attach(new Heap(iSize, iData));       \
+            return *this;                                       \
+        }                                                       \
+        if (!atype<T>())                                        \
+            throw error("var::append(): Incompatible types");   \
         array();                                                \
         heap()->append(iSize, iData);                           \
         return *this;                                           \
@@ -1061,9 +1068,10 @@ APPEND(cdouble)
 var& var::append(const char* iStr)
 {
     // It should be a special case to avoid the strlen
-    array();
-    heap()->append(std::strlen(iStr), iStr);
-    return *this;
+    int size = std::strlen(iStr);
+    if (!defined() || atype<char>())
+        return append(size, iStr);
+    return append(var(size, iStr));
 }
 
 
-- 
2.43.0


From aea679604a770290247d550b64d4dd523a8bd665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 11/84] fix: unshift() did not convert the value to the element
 type

---
 lube/heap.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 942c245..f9d6ef5 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -602,31 +602,31 @@ void Heap::unshift(var iVar)
     {
     case TYPE_CHAR:
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = iVar.cast<char>();
         break;
     case TYPE_INT:
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = iVar.cast<int>();
         break;
     case TYPE_LONG:
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = iVar.cast<long>();
         break;
     case TYPE_FLOAT:
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = iVar.cast<float>();
         break;
     case TYPE_DOUBLE:
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = iVar.cast<double>();
         break;
     case TYPE_CFLOAT:
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = iVar.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = iVar.cast<cdouble>();
         break;
     case TYPE_VAR:
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
-- 
2.43.0


From 4f6cdf6dd4aac02e74fc572bc0a44f7f270b2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 12/84] fix: shift() of an empty array moved a negative size

---
 lube/heap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index f9d6ef5..7f6f0fa 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -539,6 +539,8 @@ var Heap::shift()
     // var and pair use placement delete on the overwritten element (to delete
     // it) and placement new on the exposed one (to reset it, rather than
     // actually construct a new one).
+    if (mSize < 1)
+        throw std::range_error("Heap::shift(): array is empty");
     var r;
     switch (mType)
     {
-- 
2.43.0


From 54644d2979be4025baf86bd94bc603ed959e7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 13/84] fix: resizing a view corrupted its descriptor; reject
 it

---
 lube/heap.h   |  3 +++
 lube/view.cpp | 28 ++++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index ad20f54..c173805 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,9 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual void resize(int iSize);
+        virtual var shift();
+        virtual void unshift(var iVar);
         virtual var at(int iIndex, bool iKey=false) const;
         virtual var* deref(ind iIndex) {
             return mHeap->deref(iIndex + mData.ip[0]);
diff --git a/lube/view.cpp b/lube/view.cpp
index d538583..7293ff5 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -27,7 +27,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -42,7 +42,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -71,7 +71,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -93,7 +93,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -117,6 +117,26 @@ View::~View()
 }
 
 
+/* It's the descriptor that is resizable, not what it describes */
+void View::resize(int iSize)
+{
+    if (iSize != size())
+        throw error("View::resize(): cannot resize a view");
+}
+
+
+var View::shift()
+{
+    throw error("View::shift(): cannot resize a view");
+}
+
+
+void View::unshift(var iVar)
+{
+    throw error("View::unshift(): cannot resize a view");
+}
+
+
 int View::offset(int iOffset)
 {
     if (iOffset + size() > mHeap->size())
-- 
2.43.0


From 53ef4908ac381940487c5d216e200ac1341bc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 14/84] fix: views with negative offset or shape accessed
 memory outside the array

---
 lube/view.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 7293ff5..e57f4cd 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -54,14 +54,20 @@ void View::setStrides(int iDim)
         throw error("View::setStrides(): view must have dim > 0");
 
     // The second of each pair is the stride
-    int p = 1;
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
+        if (p > mHeap->size())
+            throw error("View::setStrides(): Array too small for view");
     }
 
     // the p that drops out should be the overall size
+    if (mData.ip[0] < 0)
+        throw error("View::setStrides(): negative offset");
     if (p+mData.ip[0] > mHeap->size())
         throw error("View::setStrides(): Array too small for view");
 }
@@ -139,7 +145,9 @@ void View::unshift(var iVar)
 
 int View::offset(int iOffset)
 {
-    if (iOffset + size() > mHeap->size())
+    if (iOffset < 0)
+        throw error("View::offset(): negative offset");
+    if ((long)iOffset + size() > mHeap->size())
         throw error("View::offset(): offset too large");
     mData.ip[0] = iOffset;
     return iOffset;
-- 
2.43.0


From 1bdb40671a69cad01e1c4bcbdcaf088b086ba87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 15/84] fix: a heap or view whose constructor threw leaked its
 storage

---
 lube/heap.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 7f6f0fa..e9d6d18 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -59,6 +59,7 @@ Heap::Heap()
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -216,10 +217,7 @@ int Heap::detach()
     assert(mRefCount > 0);
     int count = --mRefCount;
     if (count == 0)
-    {
-        dealloc(mData);
         delete this;
-    }
     return count;
 }
 
-- 
2.43.0


From b79b45a9be702bc7749920764e08e432d5274555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 16/84] fix: indexing a scalar by key dereferenced a null
 pointer

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index b05e045..b387402 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -750,7 +750,7 @@ var var::operator [](var iVar)
         v.attach(new Heap(0, TYPE_PAIR));
     }
     else
-        if (v.heap() && !v.atype<pair>())
+        if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
             return operator [](iVar.cast<int>());
     if (!iVar)
@@ -842,7 +842,7 @@ var var::at(var iVar) const
     if (!defined())
         throw error("var::at(): uninitialised");
     else
-        if (heap() && !atype<pair>())
+        if (!heap() || !atype<pair>())
             throw error("operator [var]: Not a map");
 
     int index = binary(iVar);
-- 
2.43.0


From 0fc2e891a09053ccd7279874d60704b81add05b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 17/84] fix: appending to a view could still pass the size
 check

---
 lube/view.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index e57f4cd..eccff30 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -126,8 +126,7 @@ View::~View()
 /* It's the descriptor that is resizable, not what it describes */
 void View::resize(int iSize)
 {
-    if (iSize != size())
-        throw error("View::resize(): cannot resize a view");
+    throw error("View::resize(): cannot resize a view");
 }
 
 
-- 
2.43.0


From 9e6a0ddd6f923af6a937d82a3c274adf446a0c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 18/84] fix: every exception leaked its backtrace buffers

---
 lube/var.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index b387402..5fefef0 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1605,18 +1605,23 @@ void error::backTrace(std::ostream& iStream)
         // We want to demangle the function name
         char* paren1 = strchr(symbol[i], '(');
         char* paren2 = strchr(symbol[i], ')');
-        *paren1 = '\0';
         // Just the file, not very helpful
         //iStream << "\n  " << symbol[i] << ":\n    ";
-        if (paren2 == paren1+1)
+        if (!paren1 || !paren2 || (paren2 == paren1+1))
         {
             // It's an empty name
             iStream << "(undefined)";
-            return;
+            break;
         }
+        *paren1 = '\0';
         char* plus = strchr(paren1+1, '+');
-        *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (plus)
+            *plus = '\0';
+        // The return value is null on failure, but then buffer is unchanged
+        char* name =
+            abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (name)
+            buffer = name;
         iStream << "\n  ";  // Indent
         switch (status)
         {
-- 
2.43.0


From c8177972b1840be057d70f08d310f8d92f5ec4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 19/84] fix: casting cdouble, nil and arrays read unrelated
 memory or lost the imaginary part

---
 lube/var.cpp | 66 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 5fefef0..e7723eb 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,54 @@ namespace libube
     }
 
 
+    /**
+     * The value of a var that has been through Cast<T>.  nil is zero, and an
+     * array of size one is its element; an array otherwise has no value.
+     */
+    template<class T> T castValue(const var& iVar)
+    {
+        if (!iVar)
+            return T(0);
+        if (iVar.heap())
+        {
+            if (iVar.size() != 1)
+                throw error("var::cast(): Not a scalar");
+            return iVar.at(0).cast<T>();
+        }
+        return iVar.get<T>();
+    }
+
+    template<> cdouble castValue<cdouble>(const var& iVar)
+    {
+        if (!iVar)
+            return cdouble(0.0);
+        if (iVar.size() != 1)
+            throw error("var::cast(): Not a scalar");
+        if (!iVar.atype<cdouble>())
+            return castValue<cdouble>(castCDouble(iVar.at(0)));
+        return iVar.get<cdouble>();
+    }
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castValue<char>(castChar(*this));
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castValue<int>(castInt(*this));
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castValue<long>(castLong(*this));
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castValue<float>(castFloat(*this));
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castValue<double>(castDouble(*this));
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castValue<cfloat>(castCFloat(*this));
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castValue<cdouble>(castCDouble(*this));
     }
 }
 
@@ -652,13 +680,29 @@ ind var::atype() const
 }
 
 
+/**
+ * Conversion from complex: the real part, unless the result is also complex
+ */
+template<class T, class C> T fromComplex(const C& iC)
+{
+    if constexpr (std::is_arithmetic<T>::value)
+        return static_cast<T>(iC.real());
+    else
+        return T(iC.real(), iC.imag());
+}
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
     // Return immediately if no cast is required
+    // A scalar cdouble is an array of size 1, but is a type for this purpose
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    ind tType = v.heap() ? ind(TYPE_CDOUBLE) : v.type();
+    ind iType =
+        (iVar && iVar.atype<cdouble>() && iVar.size() == 1 && !iVar.view())
+        ? ind(TYPE_CDOUBLE) : iVar.type();
+    if (tType == iType)
     {
         if (!iVar.is(oVar))
             oVar = iVar;
@@ -677,7 +721,7 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     }
 
     // Everything else gets cast<>ed
-    switch (iVar.type())
+    switch (iType)
     {
     case TYPE_ARRAY:
         broadcast(iVar, oVar);
@@ -698,10 +742,10 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        oVar = fromComplex<T>(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        oVar = fromComplex<T>(iVar.get<cdouble>());
         break;
     default:
         throw error("Cast::operator(): Unknown type");
-- 
2.43.0


From 1a6fcc0299a6a4eb8e11c826582816fc544bae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 20/84] fix: array + and - modified the left operand and
 returned garbage

---
 lube/math.cpp | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..162856e 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -359,6 +359,20 @@ void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
+/**
+ * o = x + a*y.  In place it's an axpy(); otherwise x should not change.
+ */
+template<class T>
+static void addScaled(int iSize, T iAlpha, T* iX, T* iY, T* oO)
+{
+    if (oO == iX)
+        blas::axpy(iSize, iAlpha, iY, oO);
+    else
+        for (int i=0; i<iSize; i++)
+            oO[i] = iX[i] + iAlpha * iY[i];
+}
+
+
 void Add::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -366,36 +380,39 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
+        addScaled(
             size, 1.0f,
+            iVar1.ptr<float>(iOffset1),
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
+        addScaled(
             size, 1.0,
+            iVar1.ptr<double>(iOffset1),
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
-        blas::axpy(
+        addScaled(
             size, cfloat(1.0f,0.0f),
+            iVar1.ptr<cfloat>(iOffset1),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
-        blas::axpy(
+        addScaled(
             size, cdouble(1.0,0.0),
+            iVar1.ptr<cdouble>(iOffset1),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -445,22 +462,23 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
+        addScaled(
             size, -1.0f,
+            iVar1.ptr<float>(iOffset1),
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
+        addScaled(
             size, -1.0,
+            iVar1.ptr<double>(iOffset1),
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From d38fc59990ac7a35efbc5229b5188742bab39cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 21/84] fix: assigning to a view wrote to the wrong var and
 only worked for reals

---
 lube/math.cpp | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 162856e..055c96b 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -9,6 +9,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <cstring>
 #include <stdexcept>
 #include <algorithm>
 
@@ -244,6 +245,18 @@ void Set::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
+template<class T>
+static void setArray(
+    int iSize, var& iVar, ind iOffsetI, var& oVar, ind iOffsetO
+)
+{
+    // memmove() because they could be overlapping views of the same array
+    std::memmove(
+        oVar.ptr<T>(iOffsetO), iVar.ptr<T>(iOffsetI), iSize*sizeof(T)
+    );
+}
+
+
 void Set::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -254,20 +267,34 @@ void Set::vector(
     int size = iVar2.size();
     switch(iVar1.atype())
     {
+    case TYPE_CHAR:
+        setArray<char>(size, iVar2, iOffset2, oVar, iOffsetO);
+        break;
+    case TYPE_INT:
+        setArray<int>(size, iVar2, iOffset2, oVar, iOffsetO);
+        break;
+    case TYPE_LONG:
+        setArray<long>(size, iVar2, iOffset2, oVar, iOffsetO);
+        break;
     case TYPE_FLOAT:
-        blas::copy(
-            size,
-            iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
-        );
+        setArray<float>(size, iVar2, iOffset2, oVar, iOffsetO);
         break;
     case TYPE_DOUBLE:
-        blas::copy(
-            size,
-            iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
-        );
+        setArray<double>(size, iVar2, iOffset2, oVar, iOffsetO);
+        break;
+    case TYPE_CFLOAT:
+        setArray<cfloat>(size, iVar2, iOffset2, oVar, iOffsetO);
         break;
+    case TYPE_CDOUBLE:
+        setArray<cdouble>(size, iVar2, iOffset2, oVar, iOffsetO);
+        break;
+    case TYPE_VAR:
+    {
+        var v = iVar2.copy();
+        for (int i=0; i<size; i++)
+            oVar.at(iOffsetO+i) = v.at(iOffset2+i);
+        break;
+    }
     default:
         throw error("Set::vector: Unknown type");
     }
-- 
2.43.0


From 5387204ee54b1b386a687908542ff5616f6abe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 22/84] fix: arithmetic on cdouble arrays only touched the
 first element

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 055c96b..756d280 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -77,7 +77,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && (iVar.size() == 1) && !iVar.view())
         type = TYPE_CDOUBLE;
     return type;
 }
-- 
2.43.0


From 0b3727a43f18c082c9aee6d62a26dffae3b982c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 23/84] fix: arithmetic on mismatched or empty arrays overran
 or divided by zero

---
 lube/func.cpp | 18 ++++++++----------
 lube/math.cpp |  2 ++
 lube/math.h   |  2 ++
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..63ca74f 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -125,7 +125,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = stepI > 0 ? iVar.size() / stepI : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -242,7 +242,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = cdim > 0 ? (step1 > 0 ? iVar1.size() / step1 : 0) : 1;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -259,9 +259,9 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dim1 = iVar1.dim();
     int dim2 = iVar2.dim();
 
-    // Case 1: iVar2 has size 1
+    // Case 1: The operation is dimensionless, and iVar2 has size 1
     // Call back to the unary operator
-    if ((dim2 == 1) && (iVar2.size() == 1))
+    if ((mDim == 0) && (dim2 == 1) && (iVar2.size() == 1))
     {
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
@@ -278,22 +278,20 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         throw error("var::broadcast: input dimension too large");
     if (iVar1.atype() != iVar2.atype())
         throw error("var::broadcast: types must match (for now)");
-#if 0
-    // Does not work for matrix multiplication
-    for (int i=1; i<dim2; i++)
+    // If the operation has a dimension, it's for the operation to check
+    for (int i=1; (mDim == 0) && (i<=dim2); i++)
     {
         // The dimensions should match
         if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
             throw error("var::broadcast: dimension mismatch");
     }
-#endif
 
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -391,7 +389,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = cdim > 0 ? (stepO > 0 ? oVar.size() / stepO : 0) : 1;
     for (int i=0; i<nOps; i++)
     {
         var iv;
diff --git a/lube/math.cpp b/lube/math.cpp
index 756d280..7196ccf 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -716,6 +716,8 @@ void Dot::vector(
         // It's a one dimensional thing, so do it as a dot product with
         // blas::dot()
         int size = iVar2.size();
+        if (iVar1.shape(-1) != size)
+            throw error("Dot::vector: Shapes not compatible");
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..88ecd9c 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -160,6 +160,8 @@ namespace libube
      */
     class Dot : public ArithmeticFunctor
     {
+    public:
+        Dot() { mDim = 1; };
     protected:
         var alloc(var iVar1, var iVar2) const;
         void vector(
-- 
2.43.0


From 5085509ba9838169a86ed1eb32627c7c76cf162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 24/84] fix: matrix product of an n-D tensor used the wrong
 dimensions

---
 lube/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7196ccf..f235ca3 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -760,7 +760,7 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
+        if (iVar1.shape(-1) != iVar2.shape(0))
         {
             std::cout << iVar1.shape() << iVar2.shape() << std::endl;
             throw error("Dot::vector: Shapes not compatible");
@@ -769,7 +769,7 @@ void Dot::vector(
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -779,7 +779,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
-- 
2.43.0


From 75f8cc4f17f4a11a4caed09f75ca879f280a7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 25/84] fix: swapping matrices ran off the end of every row

---
 lube/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index f235ca3..29db250 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -315,7 +315,9 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    if (iVar1.shape() != iVar2.shape())
+        throw error("Swap::vector: Shapes not compatible");
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 5bde9bab624c84b1e18d0fc35323701e823304d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 26/84] fix: asum() of a complex scalar dereferenced a bogus
 pointer

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 29db250..02faa3e 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -884,10 +884,10 @@ void ASum::scalar(const var& iVar, var& oVar) const
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = std::abs(iVar.get<cfloat>());
+        *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = std::abs(iVar.get<cdouble>());
+        *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
         throw error("ASum::operator(): Unknown type");
-- 
2.43.0


From c1d3bb8899b05edc9c9e0d1cbb9ef4196d1412f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 27/84] fix: poly() of a cdouble array overflowed its output

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 02faa3e..4855c88 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1190,7 +1190,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From 372705c5b66348c2d678f019b5b5368fa23f6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 28/84] fix: roots() of a linear polynomial threw

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 4855c88..7e3027f 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1100,7 +1100,7 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
-    var a = var(size*size, iVar.at(0)).view({size, size});
+    var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
     for (int r=0; r<size-1; r++)
-- 
2.43.0


From 7a5327a666daf3dfca97f614ba86420fca6fe5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 29/84] fix: half of the LAPACK return code was uninitialised

---
 lube/clapack.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index a69a0f1..754b35a 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -240,7 +240,7 @@ namespace lapack
     )
     {
         long sdim;
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*3);
         float work[lwork];
         sgees_(
@@ -258,7 +258,7 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vl, float* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         float work[lwork];
         sgeev_(
@@ -277,7 +277,7 @@ namespace lapack
         long n, double* a, double* wr, double* wi, double* vl, double* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         double work[lwork];
         dgeev_(
-- 
2.43.0


From e7c25182c41ec05ac828b12aa5d7af97c2247459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 30/84] fix: concatenate() accepted operands of different
 dimension

---
 lube/math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7e3027f..36f571d 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1281,6 +1281,8 @@ var Concatenate::alloc(var iVar) const
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
     {
+        if (iVar[v].dim() != dim)
+            throw error("Concatenate: dimensions differ");
         for (int d=0; d<dim-1; d++)
             if (iVar[v].shape(d) != iVar[0].shape(d))
                 throw error("Concatenate: dimensions differ");
-- 
2.43.0


From c9c1d0964bb6630c8499ebcbe09a80c5a05a2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 31/84] fix: strip() wrote to freed memory, and to a negative
 size for all-space strings

---
 lube/string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..22b66dc 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -236,7 +236,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
@@ -251,6 +251,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From 19889b96118a546ba18b84f2ac3ec72c53a6c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 32/84] fix: getline() added a byte to an unterminated last
 line and looped on a bad stream

---
 lube/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 22b66dc..06afa54 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -107,7 +107,7 @@ var& var::getline(std::istream& iStream)
 {
     // Peek ahead to set eof if necessary, return nil if done
     iStream.peek();
-    if (iStream.eof())
+    if (!iStream.good())
         return clear();
 
     // Start off as a string as an array; re-use the existing array if possible
@@ -123,7 +123,9 @@ var& var::getline(std::istream& iStream)
     char* str = ptr<char>();
     while (!iStream.eof())
     {
-        char c = iStream.get();
+        int c = iStream.get();
+        if (c == std::istream::traits_type::eof())
+            break; // Last line, without a newline
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From bfa35d1b04b8f50142736269c65360a550d7b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 33/84] fix: varstream took byte 0xff for the end of the
 string, and could not seek to the end

---
 lube/stream.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..5899d05 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -82,8 +82,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if ((iPos < 0) || (iPos > mVar.size()))
+        return std::streampos(std::streamoff(-1));
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From 84e17c1e728dd07a08f3ca0fada9c74fdb4f2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 34/84] fix: split() never returned given an empty separator,
 and ignored a limit of 1

---
 lube/string.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 06afa54..fe6fbe2 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -151,6 +151,8 @@ var var::split(const char* iStr, int iMax) const
 {
     var r;
     int strLen = std::strlen(iStr);
+    if (strLen == 0)
+        throw error("var::split(): empty separator");
     const char* source = this->str();
     const char* p;
     if (iMax != 1)
@@ -182,6 +184,12 @@ var var::split(int iMax) const
     const char* source = this->str();
     const char* p = source;
     while (std::isspace(*p)) { ++p; }
+    if (*p && (iMax == 1))
+    {
+        // Nothing to split
+        r.push(p);
+        return r;
+    }
     while (*p)
     {
         const char* beg = p;
-- 
2.43.0


From 37570303701830a2cce632d75434da2622e128de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 35/84] fix: JSON numbers swallowed the delimiter, so numeric
 arrays and objects did not parse

---
 lube/json.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..6713b11 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -189,10 +189,12 @@ var JSON::doRaw(std::istream& iStream)
     char c;
     while (iStream.get(c))
     {
-        if (isspace(c))
-            break;
-        if (strchr(",[]{}", c))
+        // The delimiter is still required by the caller
+        if (isspace(c) || strchr(",[]{}", c))
+        {
+            iStream.unget();
             break;
+        }
         val.push(c);
     }
 
-- 
2.43.0


From 5d9a085242a07ad0350ab6afdd95f109be37384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 36/84] fix: JSON numbers with a fraction or exponent were
 truncated to integers

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 6713b11..87f60b6 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -167,7 +167,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == EOF))
         return l;
 
     // Try for double
@@ -175,7 +175,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == EOF))
         return d;
 
     // Failed
-- 
2.43.0


From 6ffeece00731805671c82e748995cf7fbf7eecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 37/84] fix: JSON arrays lost their type, fractions or nesting
 unless all strings

---
 lube/json.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 87f60b6..7a2412b 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -107,9 +107,40 @@ var JSON::doObject(std::istream& iStream)
     return obj;
 }
 
+/** Convert an array of var to a dense one if everything in it is a number */
+var dense(var iArr)
+{
+    ind type = TYPE_INT;
+    for (int i=0; i<iArr.size(); i++)
+        switch (iArr.at(i).type())
+        {
+        case TYPE_INT:
+            break;
+        case TYPE_LONG:
+            if (type == TYPE_INT)
+                type = TYPE_LONG;
+            break;
+        case TYPE_DOUBLE:
+            type = TYPE_DOUBLE;
+            break;
+        default:
+            return iArr;
+        }
+
+    if (iArr.size() == 0)
+        return iArr;
+    var arr = (type == TYPE_INT) ? var(0) : (type == TYPE_LONG) ? 0l : 0.0;
+    arr.array();
+    arr.resize(iArr.size());
+    for (int i=0; i<iArr.size(); i++)
+        arr[i] = iArr[i];
+    return arr;
+}
+
 var JSON::doArray(std::istream& iStream)
 {
     var arr;
+    arr.resize(0); // An empty array of var
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -119,7 +150,7 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return dense(arr);
             break;
         case ',':
             iStream.get();
-- 
2.43.0


From eae39593cb97f6e0d85c77d6282b13dec543292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 38/84] fix: JSON strings containing quotes or backslashes did
 not survive a round trip

---
 lube/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 7a2412b..75f3d6e 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -179,6 +179,7 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
                 str.push(got);
                 break;
             default:
@@ -329,7 +330,13 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     {
     case TYPE_CHAR:
         iStream << "\"";
-        iStream << iVar.ptr<char>();
+        for (int i=0; i<iVar.size(); i++)
+        {
+            char c = *iVar.ptr<char>(i);
+            if ((c == '\"') || (c == '\\'))
+                iStream << '\\';
+            iStream << c;
+        }
         iStream << "\"";
         break;
     case TYPE_PAIR:
-- 
2.43.0


From bee14cec324d923f43016d383e9120b1ecd1e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 39/84] fix: writing cdouble arrays printed addresses, or threw

---
 lube/json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 75f3d6e..11f5ebd 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -307,8 +307,8 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        // A reference to an element; otherwise it would be an array
+        iStream << iVar.get<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
@@ -386,7 +386,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From c68d428130d55d0286f8db45776bb9f4e46a963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 40/84] fix: ini values were truncated at a second separator

---
 lube/inifile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..b765652 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -58,9 +58,9 @@ var inifile::read(var iFile)
         else
         {
             // It's a 'key [=:] value' line
-            var kv = f.split("=");
+            var kv = f.split("=", 2);
             if (kv.size() < 2)
-                kv = f.split(":");
+                kv = f.split(":", 2);
             if (kv.size() < 2)
                 throw error("inifile::read(): couldn't split");
             kv[0].strip();
-- 
2.43.0


From b1e25dd76ee571a16fdfeec1d33cb1106f32d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 41/84] fix: repeating a command line flag threw

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..8382146 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -97,7 +97,7 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        var a = optarg ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From 968507b0bf9ed405b140b737ecb5867603cbd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 42/84] fix: multichannel audio counted samples as frames, so
 could not be read or written

---
 lube/sndfile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..b662b61 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -50,14 +50,15 @@ var sndfile::read(var iFile)
     mAttr["rate"] = sfInfo.samplerate;
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
+    data.array();
     data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
+    int nGot = sf_read_float(snd, data.ptr<float>(), size);
+    sf_close(snd);
     if (nGot != size)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
         data = data.view({(int)sfInfo.frames, sfInfo.channels}).transpose();
-    sf_close(snd);
     return data;
 }
 
@@ -77,10 +78,10 @@ void sndfile::write(var iFile, var iVar)
     if (iVar.dim() > 1)
     {
         var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
+        n = (int)sf_write_float(snd, tr.ptr<float>(), tr.size());
     }
     else
-        n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
+        n = (int)sf_write_float(snd, iVar.ptr<float>(), iVar.size());
     sf_close(snd);
     if (iVar.size() != n)
         throw error("sndfile::write: Size fuckup");
-- 
2.43.0


From f25148beef3c7449565fd78d92744285302c6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 43/84] fix: XML line breaks and tabs were lost, and truncated
 files accepted

---
 lube/xmlfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..e466405 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -181,7 +181,7 @@ var Expat::parse(const char* iFile)
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
+    s = XML_Parse(mParser, f.str(), 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
@@ -306,6 +306,12 @@ void XMLWriter::escape(std::ofstream& iOS, var iVar)
         case '"':
             iOS << "&quot;";
             break;
+        case '\n':
+        case '\r':
+        case '\t':
+            // Otherwise normalised or dropped when it's read back
+            iOS << "&#" << (int)str[i] << ";";
+            break;
         default:
             iOS.put(str[i]);
             break;
-- 
2.43.0


From 31d7224f6e54d22bd07d76476c6b4d96ed11f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 44/84] fix: a GEDCOM record without sub-records swallowed what
 followed it

---
 lube/gedfile.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..aea55fb 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -203,19 +203,25 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case SUBM:
-                doSubmitter(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doSubmitter(level);
                 break;
             case INDI:
                 entity = individual();
                 mIndividualMap[xref] = mVar["Individual"].size();
                 mVar["Individual"].push(entity);
-                doIndividual(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doIndividual(level, entity);
                 break;
             case FAM:
                 entity = family();
                 mFamilyMap[xref] = mVar["Family"].size();
                 mVar["Family"].push(entity);
-                doFamily(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doFamily(level, entity);
                 break;
             default:
                 std::cout << "File: Unknown tag " << mField << std::endl;
@@ -231,7 +237,9 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
-                level = doHeader(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doHeader(level);
                 continue;
             case TRLR:
                 return;
@@ -391,7 +399,9 @@ int GEDCOM::doFamily(int iLevel, var iFam)
             break;
         case MARR:
             std::cout << "Married" << std::endl;
-            level = doBirth(readLine());
+            level = readLine();
+            if (level > iLevel)
+                level = doBirth(level);
             continue;
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
-- 
2.43.0


From 82f4dbae3a0cf76f8f26be9489aae7a346d5c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 45/84] fix: insert, append and unshift of an element missed
 it, or dereferenced null

---
 lube/heap.cpp |  4 ++--
 lube/var.cpp  | 43 ++++++++++++++++++++++++-------------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index e9d6d18..ce22fc5 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -597,6 +597,8 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
+    if (mType == TYPE_PAIR)
+        throw error("Heap::unshift(): Can't unshift a pair");
     resize(mSize+1);
     switch (mType)
     {
@@ -633,8 +635,6 @@ void Heap::unshift(var iVar)
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
         break;
-    case TYPE_PAIR:
-        throw error("Heap::unshift(): Can't unshift a pair");
     default:
         throw error("Heap::unshift(): Unknown type");
     }
diff --git a/lube/var.cpp b/lube/var.cpp
index e7723eb..bd2cc76 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -796,7 +796,7 @@ var var::operator [](var iVar)
     else
         if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
-            return operator [](iVar.cast<int>());
+            return v.operator [](iVar.cast<int>());
     if (!iVar)
         return nil;
     int index = v.binary(iVar);
@@ -963,7 +963,7 @@ var& var::array()
         v.attach(new Heap(1, tmp.mType));
         v.at(0) = tmp;
     }
-    return *this;
+    return v;
 }
 
 
@@ -995,9 +995,9 @@ var& var::resize(int iSize)
     else
     {
         // It's allocated already
-        heap()->resize(iSize);
+        v.heap()->resize(iSize);
     }
-    return *this;
+    return v;
 }
 
 
@@ -1095,14 +1095,15 @@ var var::atypeStr() const
     {                                                           \
         if (!defined())                                         \
         {                                                       \
-            dereference().attach(new Heap(iSize, iData));       \
-            return *this;                                       \
+            var& v = dereference();                             \
+            v.attach(new Heap(iSize, iData));                   \
+            return v;                                           \
         }                                                       \
         if (!atype<T>())                                        \
             throw error("var::append(): Incompatible types");   \
-        array();                                                \
-        heap()->append(iSize, iData);                           \
-        return *this;                                           \
+        var& v = array();                                       \
+        v.heap()->append(iSize, iData);                         \
+        return v;                                               \
     }
 
 APPEND(char)
@@ -1169,6 +1170,11 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
+    // If it's a reference then it's what it references that is to change
+    var& v = dereference();
+    if (&v != this)
+        return v.insert(iVar, iIndex);
+
     if (iIndex < 0)
         throw std::range_error("insert(): negative index");
     if (iIndex > size())
@@ -1204,13 +1210,13 @@ var& var::insert(var iVar, int iIndex)
     {
         // It's a fundamental type, insert the whole array
         // Take a copy of an array in case it's the one being resized
-        var v = iVar.copy();
-        int n = v.size();
+        var c = iVar.copy();
+        int n = c.size();
         resize(size()+n);
         for (int i=size()-1; i>iIndex+n-1; i--)
             at(i) = at(i-n);
         for (int i=0; i<n; i++)
-            at(iIndex+i) = v.at(i);
+            at(iIndex+i) = c.at(i);
     }
 
     return *this;
@@ -1258,10 +1264,9 @@ var& var::unshift(var iVar)
         return *this;
     }
 
-    if (!heap())
-        array();
-    heap()->unshift(iVar);
-    return *this;
+    var& v = array();
+    v.heap()->unshift(iVar);
+    return v;
 }
 
 
@@ -1315,9 +1320,9 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
-    resize(iSize);
-    resize(s);
-    return *this;
+    var& v = resize(iSize);
+    v.resize(s);
+    return v;
 }
 
 
-- 
2.43.0


From 7cf9fe9a382a3d3b17bacd02db66c72dd6578f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 46/84] fix: remove() from a view moved its elements before
 failing

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index bd2cc76..303788a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1229,6 +1229,8 @@ var var::remove(int iIndex)
         throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
+    if (view())
+        throw error("remove(): Can't resize a view");
 
     var r = at(iIndex).copy();
     bool pairs = heap() && atype<pair>();
-- 
2.43.0


From 25a89b13cf8dd508b99a1599789acacf8912c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:04 +0000
Subject: [PATCH 47/84] fix: reading an element of a view of vars could
 overwrite the view

---
 lube/var.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 303788a..9749f73 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1370,10 +1370,13 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
-        // Set mType to not-a-reference, then let operator=() do the
-        // housekeeping
-        mType = 0;
-        *this = r;
+        // Not operator=(); that would see an array rather than a reference,
+        // and write through it if it's a view
+        IHeap* tmp = mData.hp;
+        mData = r.mData;
+        mType = r.mType;
+        attach();
+        detach(tmp);
         return r;
     }
     else
-- 
2.43.0


From 4c6917e80053100513ab6125b35ee2c027489700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 48/84] fix: reading a nested map by key returned the wrong
 element

---
 lube/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 9749f73..dbd3fd4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -892,7 +892,9 @@ var var::at(var iVar) const
     int index = binary(iVar);
     if ( (index >= size()) || (heap()->key(index) != iVar) )
         return nil;
-    return reference(index);
+    var v = *this;
+    v.dereference();
+    return v.reference(index);
 }
 
 
-- 
2.43.0


From 0f03677db27e25ed27694b54da9a92a716151abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 49/84] fix: an empty map and an empty array were neither equal
 nor ordered

---
 lube/heap.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index ce22fc5..e9d665b 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -497,7 +497,9 @@ bool Heap::lt(IHeap* iHeap)
     if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
     {
         int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
-        return c ? (c < 0) : (size() < iHeap->size());
+        if (c)
+            return c < 0;
+        n = 0;
     }
     bool pairs = (type() == TYPE_PAIR) && (iHeap->type() == TYPE_PAIR);
     // A cdouble element is itself an array, so at() would recurse for ever
@@ -522,7 +524,19 @@ bool Heap::lt(IHeap* iHeap)
                 return false;
         }
     }
-    return size() < iHeap->size();
+    if (size() != iHeap->size())
+        return size() < iHeap->size();
+
+    // The elements are the same, but neq() also tells these apart
+    if ( (type() == TYPE_PAIR) != (iHeap->type() == TYPE_PAIR) )
+        return iHeap->type() == TYPE_PAIR;
+    if (dim() != iHeap->dim())
+        return dim() < iHeap->dim();
+    if (dim() > 1)
+        for (int i=0; i<dim(); i++)
+            if (shape(i) != iHeap->shape(i))
+                return shape(i) < iHeap->shape(i);
+    return false;
 }
 
 
-- 
2.43.0


From a7c0cedc559dab6e331146774e58987bd760eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:10 +0000
Subject: [PATCH 50/84] fix: casting a string of one space to char threw, as
 did assigning to such a view

---
 lube/var.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index dbd3fd4..7d2fbb4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -712,6 +712,13 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     // Strings get converted
     if (iVar.heap() && iVar.atype<char>())
     {
+        if constexpr (std::is_same<T, char>::value)
+            if (iVar.size() == 1)
+            {
+                // The stream would skip white space
+                oVar = iVar.at(0).template get<char>();
+                return;
+            }
         T t;
         varstream s(iVar);
         s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
-- 
2.43.0


From 865e27d30a15261a36ab429e582a6392c7355269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:45 +0000
Subject: [PATCH 51/84] fix: characters above 127 compared as signed alone but
 unsigned in strings, so < was not transitive

---
 lube/math.cpp | 4 +++-
 lube/var.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 36f571d..2be8312 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1245,7 +1245,9 @@ void Sort::vector(var iVar, var& oVar) const
     switch (iVar.atype())
     {
     case TYPE_CHAR:
-        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size);
+        // Unsigned, as in the comparison of strings
+        std::sort(reinterpret_cast<unsigned char*>(iVar.ptr<char>()),
+                  reinterpret_cast<unsigned char*>(iVar.ptr<char>())+size);
         break;
     case TYPE_INT:
         std::sort(iVar.ptr<int>(), iVar.ptr<int>()+size);
diff --git a/lube/var.cpp b/lube/var.cpp
index 7d2fbb4..01903d5 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -587,7 +587,9 @@ bool var::operator <(var iVar) const
             return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
-        return (get<char>() < iVar.get<char>());
+        // Unsigned, as in the comparison of strings
+        return (static_cast<unsigned char>(get<char>()) <
+                static_cast<unsigned char>(iVar.get<char>()));
     case TYPE_INT:
         return (get<int>() < iVar.get<int>());
     case TYPE_LONG:
-- 
2.43.0


From b6e9f84ded3c6336b7d70b951203a8fa161aec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 52/84] fix: < between maps and arrays was not transitive

---
 lube/heap.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index e9d665b..ae0363d 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -492,6 +492,10 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
+    // Arrays come before maps
+    if ( (type() == TYPE_PAIR) != (iHeap->type() == TYPE_PAIR) )
+        return iHeap->type() == TYPE_PAIR;
+
     // Lexicographic; a prefix is less than whatever extends it
     int n = std::min(size(), iHeap->size());
     if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
@@ -501,7 +505,7 @@ bool Heap::lt(IHeap* iHeap)
             return c < 0;
         n = 0;
     }
-    bool pairs = (type() == TYPE_PAIR) && (iHeap->type() == TYPE_PAIR);
+    bool pairs = (type() == TYPE_PAIR);
     // A cdouble element is itself an array, so at() would recurse for ever
     bool cd = (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE);
     for (int i=0; i<n; i++)
@@ -528,8 +532,6 @@ bool Heap::lt(IHeap* iHeap)
         return size() < iHeap->size();
 
     // The elements are the same, but neq() also tells these apart
-    if ( (type() == TYPE_PAIR) != (iHeap->type() == TYPE_PAIR) )
-        return iHeap->type() == TYPE_PAIR;
     if (dim() != iHeap->dim())
         return dim() < iHeap->dim();
     if (dim() > 1)
-- 
2.43.0


From b4ea4687ce4c92d8197e7bb230c5b2860c4076d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 53/84] fix: string functions of anything but strings recursed
 until the stack overflowed

---
 lube/string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index fe6fbe2..439e6fc 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -78,6 +78,10 @@ void StringFunctor::string(const var& iVar, var& oVar) const
  */
 void StringFunctor::broadcast(var iVar, var& oVar) const
 {
+    // Anything else would recurse for ever on its own elements
+    if ((iVar.atype() != TYPE_VAR) && (iVar.atype() != TYPE_PAIR))
+        throw error("StringFunctor::broadcast: not a string");
+
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
-- 
2.43.0


From 0ce13e6c55574dbb14f557e1049715cdc0bfd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:44 +0000
Subject: [PATCH 54/84] fix: functions of a map returned values with no keys

---
 lube/heap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index ae0363d..9a0fe66 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -76,6 +76,11 @@ Heap::Heap(const IHeap& iHeap, bool iAllocOnly) : Heap()
     resize(iHeap.size());
     if (!iAllocOnly)
         copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
+    else if (mType == TYPE_PAIR)
+        // A map without its keys would not be a map of the same shape
+        for (int i=0; i<mSize; i++)
+            mData.pp[i].key =
+                reinterpret_cast<const Heap&>(iHeap).mData.pp[i].key;
 }
 
 
-- 
2.43.0


From 5f43da788e1a9f8482d2bcf542ffd9346692a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 55/84] fix: assigning an element to itself made it refer to
 itself

---
 lube/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 01903d5..821e9f2 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -355,13 +355,14 @@ var& var::operator =(var iVar)
     {
         // Not a reference.  Record whether the old value was a heap
         // allocation. If so, detach it after attaching the new value.
+        // Dereference first; it could be a reference to this very var.
+        iVar.dereference();
         IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
         mData = iVar.mData;
         mType = iVar.mType;
         attach();
         if (tmp)
             detach(tmp);
-        dereference();
     }
     return *this;
 }
-- 
2.43.0


From 34bd733aedc6fa1210935a17414bdcaf02306418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 56/84] fix: inserting an element of an array into it inserted
 another one

---
 lube/var.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 821e9f2..48e039f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1187,6 +1187,8 @@ var& var::insert(var iVar, int iIndex)
     if (&v != this)
         return v.insert(iVar, iIndex);
 
+    // ...and it's the value that's inserted, wherever it moves to
+    iVar.dereference();
     if (iIndex < 0)
         throw std::range_error("insert(): negative index");
     if (iIndex > size())
@@ -1279,6 +1281,7 @@ var& var::unshift(var iVar)
     }
 
     var& v = array();
+    iVar.dereference();
     v.heap()->unshift(iVar);
     return v;
 }
-- 
2.43.0


From 1c775764a686e08a9b9a3ed9e5073da01cd836c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 57/84] fix: JSON arrays of integers were read as floating
 point

---
 lube/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 11f5ebd..50c6303 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -129,7 +129,8 @@ var dense(var iArr)
 
     if (iArr.size() == 0)
         return iArr;
-    var arr = (type == TYPE_INT) ? var(0) : (type == TYPE_LONG) ? 0l : 0.0;
+    var arr = (type == TYPE_INT) ? var(0)
+        : (type == TYPE_LONG) ? var(0l) : var(0.0);
     arr.array();
     arr.resize(iArr.size());
     for (int i=0; i<iArr.size(); i++)
-- 
2.43.0


From 9ae9e3da24507233efd97832fa538391af94c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 58/84] fix: arithmetic on an array of vars returned values
 with no type

---
 lube/heap.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 9a0fe66..3d0d01b 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -69,18 +69,27 @@ Heap::~Heap()
  * Like the var version, it is non-recursive; it copies the array, but
  * deeper arrays are not copied.  Just the reference counts are
  * implicitly bumped.
+ *
+ * If only allocating, though, the elements of an array or map of vars are
+ * allocated too, and the keys of a map are kept; otherwise it wouldn't have
+ * the same types and shape.
  */
 Heap::Heap(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     mType = iHeap.type();
     resize(iHeap.size());
+    const Heap& heap = reinterpret_cast<const Heap&>(iHeap);
     if (!iAllocOnly)
-        copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
+        copy(&heap, mSize);
+    else if (mType == TYPE_VAR)
+        for (int i=0; i<mSize; i++)
+            mData.vp[i] = heap.mData.vp[i].copy(true);
     else if (mType == TYPE_PAIR)
-        // A map without its keys would not be a map of the same shape
         for (int i=0; i<mSize; i++)
-            mData.pp[i].key =
-                reinterpret_cast<const Heap&>(iHeap).mData.pp[i].key;
+        {
+            mData.pp[i].key = heap.mData.pp[i].key;
+            mData.pp[i].val = heap.mData.pp[i].val.copy(true);
+        }
 }
 
 
-- 
2.43.0


From 5e9a12df9c0878465a128a681895c8f11b706cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:57 +0000
Subject: [PATCH 59/84] fix: making an array of complex doubles resized the
 value given as its type

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 48e039f..736cc7a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1497,7 +1497,7 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : var(0.0f);
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1513,7 +1513,7 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : var(0.0f);
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0


From 8a401cc10e4f4d09ce73b30c3d939d54b4b09aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 60/84] fix: double precision transforms were refused

---
 lube/dft-kiss.cpp | 14 +++++++-------
 lube/dft-mkl.cpp  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index 651cbd5..6831b7b 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -55,7 +55,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     mImpl->forwardType = iForwardType;
 
     // Set the input and output types for a forward transform
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -115,13 +115,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -142,7 +142,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 kiss_fftri(
@@ -168,7 +168,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 kiss_fftr(
diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..dcb3844 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -56,7 +56,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -125,13 +125,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -157,7 +157,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -191,7 +191,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From f78544bc32388d65a1876943dfff539e34569de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 61/84] fix: a transform that could not be made leaked its
 storage

---
 lube/dft-kiss.cpp |  6 +++++-
 lube/dft-mkl.cpp  | 14 +++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index 6831b7b..c71db18 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 
 #include "kiss_fft.h"
 #include "kiss_fftr.h"
@@ -46,7 +47,9 @@ using namespace libube;
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // Held such that it's released if anything below throws
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -85,6 +88,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     
     // Update the instance count
     kissfft::sInstanceCount++;
+    impl.release();
 }
 
 DFTBase::~DFTBase()
diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index dcb3844..311e836 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -23,6 +24,12 @@ struct libube::DFTImpl
     var inverseType;
     int oSize;
     bool inverse;
+
+    ~DFTImpl()
+    {
+        if (handle)
+            DftiFreeDescriptor(&handle);
+    }
 };
 
 
@@ -46,7 +53,9 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // Held such that it's released if anything below throws
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -97,12 +106,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    MKL_LONG r = DftiFreeDescriptor(&mImpl->handle);
-    dftiCheck(r);
     delete mImpl;
     mImpl = 0;
 }
-- 
2.43.0


From 79cc73972e3d4733fc213979b512b564c6aaf09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 62/84] fix: transforms of arrays that were too small went out
 of bounds

---
 lube/dft-kiss.cpp | 10 ++++++++++
 lube/dft-mkl.cpp  | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index c71db18..fdbac5e 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -30,6 +30,7 @@ struct libube::DFTImpl
     void* config;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -62,6 +63,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         if (iInverse)
             mImpl->config = kiss_fftr_alloc(iSize, 1, 0, 0);
@@ -73,6 +75,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         break;
     case TYPE_CFLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
+        mImpl->iSize = iSize;
         mImpl->oSize = iSize;
         if (iInverse)
             mImpl->config = kiss_fft_alloc(iSize, 1, 0, 0);
@@ -129,6 +132,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
         ))
         throw error("DFTBase::scalar: wrong output type");
 
+    // The libraries don't know how much storage there is
+    if (iVar.shape(-1) < mImpl->iSize)
+        throw error("DFTBase::scalar: input too small");
+    if (oVar.shape(-1) < mImpl->oSize ||
+        oVar.size() / oVar.shape(-1) < iVar.size() / iVar.shape(-1))
+        throw error("DFTBase::scalar: output too small");
+
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
 
diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 311e836..a840c66 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -22,6 +22,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 
@@ -69,6 +70,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
             &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, iSize
@@ -76,6 +78,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         break;
     case TYPE_DOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
             &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, iSize
@@ -83,6 +86,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         break;
     case TYPE_CFLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
+        mImpl->iSize = iSize;
         mImpl->oSize = iSize;
         r = DftiCreateDescriptor(
             &mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, iSize
@@ -90,6 +94,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         break;
     case TYPE_CDOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
+        mImpl->iSize = iSize;
         mImpl->oSize = iSize;
         r = DftiCreateDescriptor(
             &mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, iSize
@@ -143,6 +148,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
         ))
         throw error("DFTBase::scalar: wrong output type");
 
+    // The libraries don't know how much storage there is
+    if (iVar.shape(-1) < mImpl->iSize)
+        throw error("DFTBase::scalar: input too small");
+    if (oVar.shape(-1) < mImpl->oSize ||
+        oVar.size() / oVar.shape(-1) < iVar.size() / iVar.shape(-1))
+        throw error("DFTBase::scalar: output too small");
+
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
 
-- 
2.43.0


From 06f8b6ee807db0344baf729d95bfe3fc2b759462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:12 +0000
Subject: [PATCH 63/84] fix: an XML tag over more than one line was misread

---
 lube/xmlfile.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index e466405..249fd36 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, October 2013
  */
 
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -92,8 +93,11 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // White space outside the root element is passed to this handler
+    int i = 0;
+    while (i < iLen && std::strchr(" \t\r\n", iStr[i]))
+        i++;
+    if (i == iLen)
         return;
 
     var str(iLen, iStr);
@@ -177,11 +181,13 @@ var Expat::parse(const char* iFile)
     XML_Status s;
     while (f.getline(is))
     {
+        // The line end separates attributes, but is not kept as data
+        f.push('\n');
         s = XML_Parse(mParser, f.str(), f.size(), 0);
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 1);
+    s = XML_Parse(mParser, "", 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
@@ -233,6 +239,9 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // Ignore a literal line end; one written as a reference is longer
+    if (iLen == 1 && *iStr == '\n' && XML_GetCurrentByteCount(mParser) <= 2)
+        return;
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From 94f7c25d8d4fd8b01e40497eef17eba9e101111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 64/84] fix: sound other than single precision was written as
 garbage from beyond its end

---
 lube/sndfile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index b662b61..47eccdf 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -64,6 +64,10 @@ var sndfile::read(var iFile)
 
 void sndfile::write(var iFile, var iVar)
 {
+    // The data is passed by pointer below
+    if (iVar.atype() != TYPE_FLOAT)
+        throw error("sndfile::write: Data must be of type float");
+
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
-- 
2.43.0


From 812bd7b8f3ee729d4b8dd4570230bd87966b5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 65/84] fix: plotting two views overwrote the first with the
 second

---
 lube/gnuplot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..02b4c37 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -68,7 +68,6 @@ var gnuplot::read(var iFile)
 
 void gnuplot::write(var iFile, var iVar)
 {
-    var line;
     if (iFile)
     {
         // Default to whatever gnuplot's default is, but if a file is supplied
@@ -82,6 +81,8 @@ void gnuplot::write(var iFile, var iVar)
     // Loop over the input var assuming it's an array of vars
     for (int i=0; i<iVar.size(); i++)
     {
+        // Not outside the loop: assigning to a view would write to its array
+        var line;
         line = iVar[i];
         switch (line.atype())
         {
-- 
2.43.0


From 5aabd6c36aa01e5f8418ce528e63e964937f912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 66/84] fix: math: refuse a given output of the wrong type or
 too small

The functions of var that write raw data took the output given on trust,
so wrote garbage or beyond its end.
---
 lube/func.cpp            | 10 ++++++++
 lube/math.cpp            | 55 +++++++++++++++++++++++++++++++++++++++-
 lube/transpose-adhoc.cpp |  4 +++
 lube/transpose-mkl.cpp   |  4 +++
 4 files changed, 72 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 63ca74f..fac1004 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -101,6 +101,9 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     // Call back to the unary operator
     if (mDim == 0)
     {
+        if (oVar.size() < iVar.size())
+            throw error("UnaryFunctor::broadcast: output too small");
+
         // This could be parallel!
         for (int i=0; i<iVar.size(); i++)
         {
@@ -126,6 +129,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
     int nOps = stepI > 0 ? iVar.size() / stepI : 0;
+    if (nOps*stepO > oVar.size())
+        throw error("UnaryFunctor::broadcast: output too small");
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -263,6 +268,9 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     // Call back to the unary operator
     if ((mDim == 0) && (dim2 == 1) && (iVar2.size() == 1))
     {
+        if (oVar.size() < iVar1.size())
+            throw error("var::broadcast: output too small");
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
@@ -292,6 +300,8 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
     int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
+    if ((nOps*stepO > oVar.size()) || ((mDim == 0) && (stepO < step1)))
+        throw error("var::broadcast: output too small");
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
diff --git a/lube/math.cpp b/lube/math.cpp
index 2be8312..1a8ebfa 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -106,6 +106,35 @@ var RealUnaryFunctor::alloc(var iVar) const
 }
 
 
+/** An output is written as raw data, so must have the type of what it gets */
+static void checkType(const var& iVar, const var& oVar)
+{
+    if ((iVar.atype() != oVar.atype()) || (oVar.size() < 1 && !iVar.heap()))
+        throw error("math: output is of the wrong type");
+}
+
+/** As above for an output that has a given type */
+static void checkType(int iType, const var& oVar)
+{
+    if ((oVar.atype() != iType) || (oVar.size() < 1))
+        throw error("math: output is of the wrong type");
+}
+
+/** The real type corresponding to that of the var */
+static int realType(const var& iVar)
+{
+    switch (iVar.atype())
+    {
+    case TYPE_CFLOAT:
+        return TYPE_FLOAT;
+    case TYPE_CDOUBLE:
+        return TYPE_DOUBLE;
+    default:
+        return iVar.atype();
+    }
+}
+
+
 /**
  * Allocator where the output retains the type but is scalar
  */
@@ -264,6 +293,7 @@ void Set::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    checkType(iVar1, oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
@@ -356,6 +386,7 @@ void Swap::vector(
 
 void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
+    checkType(iVar1, oVar);
     switch(type(iVar1))
     {
     case TYPE_ARRAY:
@@ -409,6 +440,7 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    checkType(iVar1, oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
@@ -452,6 +484,7 @@ void Add::vector(
 
 void Sub::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
+    checkType(iVar1, oVar);
     switch(type(iVar1))
     {
     case TYPE_ARRAY:
@@ -491,6 +524,7 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    checkType(iVar1, oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
@@ -538,6 +572,8 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar1.size();
+    if (iOffset + size > oVar.size())
+        throw error("Mul::scale: output too small");
     if (oVar.is(iVar1))
     {
         // Scale in place
@@ -593,6 +629,7 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
 
 void Mul::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
+    checkType(iVar1, oVar);
     switch(type(iVar1))
     {
     case TYPE_ARRAY:
@@ -635,6 +672,7 @@ void Mul::vector(
     // matrix.  In BLAS speak, a diagonal matrix is a band matrix with no
     // superdiagonals.
     assert(type(iVar1) == TYPE_ARRAY);
+    checkType(iVar1, oVar);
     int size = iVar2.size();
     if (iVar1.is(oVar))
     {
@@ -710,6 +748,7 @@ void Dot::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    checkType(iVar1, oVar);
     if (iVar1.is(oVar))
         throw error("Dot::vector: Cannot operate in place");
 
@@ -767,6 +806,8 @@ void Dot::vector(
             std::cout << iVar1.shape() << iVar2.shape() << std::endl;
             throw error("Dot::vector: Shapes not compatible");
         }
+        if (iOffsetO + iVar1.shape(-2) * iVar2.shape(1) > oVar.size())
+            throw error("Dot::vector: output too small");
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
@@ -800,6 +841,7 @@ void Dot::vector(
 
 void Div::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
+    checkType(iVar1, oVar);
     switch(type(iVar1))
     {
     case TYPE_ARRAY:
@@ -872,6 +914,8 @@ var ASum::alloc(var iVar) const
 
 void ASum::scalar(const var& iVar, var& oVar) const
 {
+    if (type(iVar) != TYPE_ARRAY)
+        checkType(realType(iVar), oVar);
     switch(type(iVar))
     {
     case TYPE_ARRAY:
@@ -899,6 +943,7 @@ void ASum::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
 {
     assert(type(iVar) == TYPE_ARRAY);
     int size = iVar.shape(-1);
+    checkType(realType(iVar), oVar);
     switch(iVar.atype())
     {
     case TYPE_FLOAT:
@@ -924,6 +969,8 @@ var Sum::alloc(var iVar) const
 
 void Sum::scalar(const var& iVar, var& oVar) const
 {
+    if (type(iVar) != TYPE_ARRAY)
+        checkType(iVar.atype(), oVar);
     switch(type(iVar))
     {
     case TYPE_ARRAY:
@@ -961,6 +1008,7 @@ void Sum::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
 {
     assert(type(iVar) == TYPE_ARRAY);
     int size = iVar.shape(-1);
+    checkType(iVar.atype(), oVar);
     switch(iVar.atype())
     {
     case TYPE_FLOAT:
@@ -1012,6 +1060,7 @@ void IAMax::vector(
         throw error("IAMax::vector: Cannot operate in place");
 
     int size = iVar.shape(-1);
+    checkType(TYPE_LONG, oVar);
     switch(iVar.atype())
     {
     case TYPE_FLOAT:
@@ -1099,7 +1148,9 @@ var Roots::alloc(var iVar) const
 void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
-    int size = oVar.size();
+    int size = iVar.shape(-1) - 1;
+    if (oVar.size() != size)
+        throw error("Roots::vector: output is of the wrong size");
     var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
@@ -1217,6 +1268,8 @@ void polyt(int iOrder, T* iData, T* oData)
 void Poly::vector(var iVar, var& oVar) const
 {
     int order = iVar.shape(-1);
+    if ((oVar.atype() != iVar.atype()) || (oVar.size() != order+1))
+        throw error("Poly::vector: output is of the wrong type or size");
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
diff --git a/lube/transpose-adhoc.cpp b/lube/transpose-adhoc.cpp
index 34e36db..160f153 100644
--- a/lube/transpose-adhoc.cpp
+++ b/lube/transpose-adhoc.cpp
@@ -141,6 +141,10 @@ void Transpose::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     int dim = iVar.dim();
     ind rows = iVar.shape(dim-2);
     ind cols = iVar.shape(dim-1);
+    if (oVar.atype() != iVar.atype())
+        throw error("Transpose::vector(): output is of the wrong type");
+    if (iOffsetO + rows*cols > oVar.size())
+        throw error("Transpose::vector(): output too small");
     if (iVar.is(oVar))
         // In place transpose
         switch (iVar.atype())
diff --git a/lube/transpose-mkl.cpp b/lube/transpose-mkl.cpp
index f2f43b3..a621515 100644
--- a/lube/transpose-mkl.cpp
+++ b/lube/transpose-mkl.cpp
@@ -74,6 +74,10 @@ void Transpose::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     int dim = iVar.dim();
     ind rows = iVar.shape(dim-2);
     ind cols = iVar.shape(dim-1);
+    if (oVar.atype() != iVar.atype())
+        throw error("Transpose::vector(): output is of the wrong type");
+    if (iOffsetO + rows*cols > oVar.size())
+        throw error("Transpose::vector(): output too small");
     if (iVar.is(oVar))
         // In place transpose
         switch (iVar.atype())
-- 
2.43.0


From 68ab00e9ebd70128bfc2bf63cb31a970c0f5ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 67/84] fix: var: a key that is a view moves within a map,
 rather than being written through

---
 lube/var.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 736cc7a..5556b3f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1213,10 +1213,12 @@ var& var::insert(var iVar, int iIndex)
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
         {
+            heap()->key(i).clear();
             heap()->key(i) = heap()->key(i-1);
             at(i).clear();
             at(i) = at(i-1);
         }
+        heap()->key(iIndex).clear();
         heap()->key(iIndex) = iVar;
         at(iIndex).clear();
     }
@@ -1251,9 +1253,12 @@ var var::remove(int iIndex)
     bool clear = heap() && (atype<pair>() || atype<var>());
     for (int i=iIndex+1; i<size(); i++)
     {
+        // If it's a view then assignment alone would write through it
         if (pairs)
+        {
+            heap()->key(i-1).clear();
             heap()->key(i-1) = heap()->key(i);
-        // If it's a view then assignment alone would write through it
+        }
         if (clear)
             at(i-1).clear();
         at(i-1) = at(i);
-- 
2.43.0


From 9c54e5bf28ce80df23e0423cfc3031966ebe1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:14 +0000
Subject: [PATCH 68/84] fix: var: what can't be pushed, inserted or unshifted
 is refused before the array grows

---
 lube/var.cpp | 32 +++++++++++++++++++++++++++++++-
 lube/var.h   |  1 +
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 5556b3f..52d5b99 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1132,6 +1132,19 @@ var& var::append(const char* iStr)
 }
 
 
+/**
+ * A new array with elements of the same type as this var, or as this array.
+ * Values can be converted by it before anything is changed.
+ */
+var var::like(int iSize) const
+{
+    var r;
+    r.mType = TYPE_ARRAY;
+    r.attach(new Heap(iSize, atype()));
+    return r;
+}
+
+
 /**
  * Push a value onto a stack
  *
@@ -1158,6 +1171,10 @@ var& var::push(var iVar)
         // Already initialised
         if ( (type() != TYPE_ARRAY) && (iVar.type() != type()) )
             throw error("push(): Incompatible types");
+
+        // If it can't be converted, that should be known before resizing
+        if (heap() && iVar.heap() && !atype<var>() && !atype<pair>())
+            like(1).at(0) = iVar;
     }
 
     (*this)[size()] = iVar;
@@ -1228,6 +1245,15 @@ var& var::insert(var iVar, int iIndex)
         // Take a copy of an array in case it's the one being resized
         var c = iVar.copy();
         int n = c.size();
+
+        // Some of it may not convert; that should be known before resizing
+        if (n && defined() && (c.atype() != atype()))
+        {
+            var d = like(n);
+            for (int i=0; i<n; i++)
+                d.at(i) = c.at(i);
+            c = d;
+        }
         resize(size()+n);
         for (int i=size()-1; i>iIndex+n-1; i--)
             at(i) = at(i-n);
@@ -1285,8 +1311,12 @@ var& var::unshift(var iVar)
         return *this;
     }
 
-    var& v = array();
+    // If it can't be converted, that should be known before resizing
     iVar.dereference();
+    if (iVar.heap() && !atype<var>() && !atype<pair>())
+        like(1).at(0) = iVar;
+
+    var& v = array();
     v.heap()->unshift(iVar);
     return v;
 }
diff --git a/lube/var.h b/lube/var.h
index 5b32b29..1c893d0 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -220,6 +220,7 @@ namespace libube
         var& varderef();
         bool reference() const { return !mType; };
         var reference(int iIndex) const;
+        var like(int iSize) const;
         int attach(IHeap* iHeap=0);
         int detach(IHeap* iHeap=0);
         int binary(var iData) const;
-- 
2.43.0


From 585b713c29be42df3cf940e476ade52ea820b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:15 +0000
Subject: [PATCH 69/84] fix: range: an end that is an element of an array isn't
 counted up in place

---
 lube/var.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 52d5b99..48a0ad8 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -923,11 +923,13 @@ var var::key(int iIndex) const
  */
 var libube::irange(var iLo, var iHi, var iStep)
 {
-    var r;
-    while (iLo < iHi)
+    // Not the argument itself; it could be a reference to an element
+    var r, v;
+    v = iLo;
+    while (v < iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(v);
+        v += iStep;
     }
     return r;
 }
@@ -949,11 +951,13 @@ var libube::irange(var iHi)
  */
 var libube::range(var iLo, var iHi, var iStep)
 {
-    var r;
-    while (iLo <= iHi)
+    // Not the argument itself; it could be a reference to an element
+    var r, v;
+    v = iLo;
+    while (v <= iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(v);
+        v += iStep;
     }
     return r;
 }
-- 
2.43.0


From 7d3eaba62b2ff828b450f77b5d5bf5392862aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:15 +0000
Subject: [PATCH 70/84] fix: func: an operand that overlaps the output is used
 as it was at the start

---
 lube/func.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index fac1004..86a18ab 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -8,6 +8,7 @@
  */
 
 #include "lube/func.h"
+#include "lube/heap.h"
 #include "lube/var.h"
 
 using namespace libube;
@@ -253,6 +254,19 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 }
 
 
+/** Whether two vars have elements of the same array in common */
+static bool overlap(const var& iVar1, const var& iVar2)
+{
+    IHeap* h1 = iVar1.heap();
+    IHeap* h2 = iVar2.heap();
+    if (!h1 || !h2)
+        return false;
+    return (h1->view() ? h1->view() : h1) == (h2->view() ? h2->view() : h2)
+        && iVar1.offset() < iVar2.offset() + iVar2.size()
+        && iVar2.offset() < iVar1.offset() + iVar1.size();
+}
+
+
 /**
  * Arithmetic broadcaster
  *
@@ -264,6 +278,10 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dim1 = iVar1.dim();
     int dim2 = iVar2.dim();
 
+    // If iVar2 is part of the output then it would change during the loops
+    iVar2.dereference();
+    var var2 = overlap(iVar2, oVar) ? iVar2.copy() : iVar2;
+
     // Case 1: The operation is dimensionless, and iVar2 has size 1
     // Call back to the unary operator
     if ((mDim == 0) && (dim2 == 1) && (iVar2.size() == 1))
@@ -275,7 +293,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         for (int i=0; i<iVar1.size(); i++)
         {
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), iVar2, tmp);
+            scalar(iVar1.at(i), var2, tmp);
         }
         return;
     }
@@ -303,7 +321,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     if ((nOps*stepO > oVar.size()) || ((mDim == 0) && (stepO < step1)))
         throw error("var::broadcast: output too small");
     for (int i=0; i<nOps; i++)
-        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
+        vector(iVar1, step1*i, var2, 0, oVar, stepO*i);
 }
 
 
-- 
2.43.0


From dbc9688b5089861a72eee6d4c83743cb132069a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:08 +0000
Subject: [PATCH 71/84] fix: func: an output that overlaps an operand gets what
 the operand was at the start

---
 lube/func.cpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 86a18ab..13a74c6 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -87,6 +87,19 @@ void UnaryFunctor::vector(var iVar, var& oVar) const
 }
 
 
+/** Whether two vars have elements of the same array in common */
+static bool overlap(const var& iVar1, const var& iVar2)
+{
+    IHeap* h1 = iVar1.heap();
+    IHeap* h2 = iVar2.heap();
+    if (!h1 || !h2)
+        return false;
+    return (h1->view() ? h1->view() : h1) == (h2->view() ? h2->view() : h2)
+        && iVar1.offset() < iVar2.offset() + iVar2.size()
+        && iVar2.offset() < iVar1.offset() + iVar1.size();
+}
+
+
 /**
  * Unary broadcaster
  *
@@ -98,6 +111,9 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
 {
     int dimI = iVar.dim();
 
+    // In place is OK, but any other overlap would change iVar too early
+    var varI = overlap(iVar, oVar) && !iVar.is(oVar) ? iVar.copy() : iVar;
+
     // Case 1: Operation is dimensionless
     // Call back to the unary operator
     if (mDim == 0)
@@ -109,7 +125,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
         for (int i=0; i<iVar.size(); i++)
         {
             var ref = oVar.at(i);
-            scalar(iVar.at(i), ref);
+            scalar(varI.at(i), ref);
         }
         return;
     }
@@ -133,7 +149,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     if (nOps*stepO > oVar.size())
         throw error("UnaryFunctor::broadcast: output too small");
     for (int i=0; i<nOps; i++)
-        vector(iVar, stepI*i, oVar, stepO*i);
+        vector(varI, stepI*i, oVar, stepO*i);
 }
 
 
@@ -254,19 +270,6 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 }
 
 
-/** Whether two vars have elements of the same array in common */
-static bool overlap(const var& iVar1, const var& iVar2)
-{
-    IHeap* h1 = iVar1.heap();
-    IHeap* h2 = iVar2.heap();
-    if (!h1 || !h2)
-        return false;
-    return (h1->view() ? h1->view() : h1) == (h2->view() ? h2->view() : h2)
-        && iVar1.offset() < iVar2.offset() + iVar2.size()
-        && iVar2.offset() < iVar1.offset() + iVar1.size();
-}
-
-
 /**
  * Arithmetic broadcaster
  *
@@ -278,8 +281,9 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dim1 = iVar1.dim();
     int dim2 = iVar2.dim();
 
-    // If iVar2 is part of the output then it would change during the loops
+    // If they are part of the output then they would change during the loops
     iVar2.dereference();
+    var var1 = overlap(iVar1, oVar) && !iVar1.is(oVar) ? iVar1.copy() : iVar1;
     var var2 = overlap(iVar2, oVar) ? iVar2.copy() : iVar2;
 
     // Case 1: The operation is dimensionless, and iVar2 has size 1
@@ -293,7 +297,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         for (int i=0; i<iVar1.size(); i++)
         {
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), var2, tmp);
+            scalar(var1.at(i), var2, tmp);
         }
         return;
     }
@@ -321,7 +325,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     if ((nOps*stepO > oVar.size()) || ((mDim == 0) && (stepO < step1)))
         throw error("var::broadcast: output too small");
     for (int i=0; i<nOps; i++)
-        vector(iVar1, step1*i, var2, 0, oVar, stepO*i);
+        vector(var1, step1*i, var2, 0, oVar, stepO*i);
 }
 
 
-- 
2.43.0


From 43bebecedbff836eae8e4b4e84a1b44b06d375ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:06 +0000
Subject: [PATCH 72/84] fix: math: scaling to an overlapping part of the same
 array moves rather than copies

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 1a8ebfa..12ac088 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -607,7 +607,7 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
             float alpha = iVar2.cast<float>();
             float* x = iVar1.ptr<float>(iOffset);
             float* y =  oVar.ptr<float>(iOffset);
-            blas::copy(size, x, y);
+            std::memmove(y, x, size * sizeof(*x)); // They may overlap
             blas::scal(size, alpha, y);
             break;
         }
@@ -616,7 +616,7 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
             double alpha = iVar2.cast<double>();
             double* x = iVar1.ptr<double>(iOffset);
             double* y =  oVar.ptr<double>(iOffset);
-            blas::copy(size, x, y);
+            std::memmove(y, x, size * sizeof(*x)); // They may overlap
             blas::scal(size, alpha, y);
             break;
         }
-- 
2.43.0


From 365cbdf20810f4d04ecf0e3dc1f9cb4a74105549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:48 +0000
Subject: [PATCH 73/84] fix: heap: appending raw data of the array itself

---
 lube/heap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 3d0d01b..2d9c635 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -189,7 +189,12 @@ var Heap::derefInt(ind iIndex, int iArrayIndex)
     void Heap::append(int iSize, const T* iData)    \
     {                                               \
         int beg = mSize;                            \
+        long own = -1;                              \
+        if ((iData >= mData.P) && (iData < mData.P+beg)) \
+            own = iData - mData.P;                  \
         resize(mSize + iSize);                      \
+        if (own >= 0)                               \
+            iData = mData.P + own;                  \
         for (int i=0; i<iSize; i++)                 \
             mData.P[beg+i] = iData[i];              \
     }
-- 
2.43.0


From cf7d2a60de2f364c6ca5c97b8bc682d5d2fba6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:51 +0000
Subject: [PATCH 74/84] fix: views: positions far outside are refused without
 overflow

---
 lube/var.cpp  | 2 +-
 lube/view.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 48a0ad8..79f63de 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -826,8 +826,8 @@ var var::operator ()(int iFirst, ...) const
     // Can't dereference with a va_list, so first convert to index
     va_list ap;
     va_start(ap, iFirst);
-    int p = iFirst * stride(0);
     bounds(0, iFirst);
+    int p = iFirst * stride(0);
     for (int i=1; i<dim(); i++)
     {
         int d = va_arg(ap, int);
diff --git a/lube/view.cpp b/lube/view.cpp
index eccff30..830ecd6 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -80,7 +80,9 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     Heap::resize(dim*2+1);
 
     // The first entry is the offset
-    mData.ip[0] += iOffset;;
+    if (iOffset > mHeap->size())
+        throw error("View::View(): Array too small for view");
+    mData.ip[0] += iOffset;
 
     // First entry of each subsequent pair is the dimension
     int i = 0;
@@ -102,7 +104,9 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     Heap::resize(dim*2+1);
 
     // The first entry is the offset
-    mData.ip[0] += iOffset;;
+    if (iOffset > mHeap->size())
+        throw error("View::View(): Array too small for view");
+    mData.ip[0] += iOffset;
 
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
-- 
2.43.0


From 9c76e106a86ac4a5d57e9a0e1c7ae10ff79410ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:53 +0000
Subject: [PATCH 75/84] fix: view: stride of a negative dimension is refused

---
 lube/view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 830ecd6..e69323a 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -177,7 +177,7 @@ int& View::shape(int iDim) const
 int& View::stride(int iDim) const
 {
     int index = iDim*2 + 2;
-    if ((index < 0) || (index >= mSize))
+    if ((iDim < 0) || (index >= mSize))
         throw std::range_error("View::stride(): dimension out of bounds");
     return mData.ip[index];
 }
-- 
2.43.0


From 9e2b87676cee3885c7b331386a7a1f57ebf7b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:55 +0000
Subject: [PATCH 76/84] fix: var: type string of the undefined value is refused
 rather than crash

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 79f63de..c8a5367 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1092,7 +1092,7 @@ var var::atypeStr() const
     if (type() == TYPE_ARRAY)
     {
         varstream s;
-        s << "array[" << libube::typeStr(heap()->type()) << "]";
+        s << "array[" << libube::typeStr(atype()) << "]";
         return var(s);
     }
     return typeStr();
-- 
2.43.0


From e6e8e50b0d162fc863fe385bc68665d8d03441d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:21 +0000
Subject: [PATCH 77/84] fix: var: characters of what is not text are refused

---
 lube/var.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index c8a5367..7d19f90 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -224,7 +224,10 @@ const char* var::str() const
     // The static is a cheap trick to avoid thinking about references for the
     // moment
     static char z = 0;
-    return heap() ? heap()->ptrchar() : &z;
+    IHeap* h = heap();
+    if (h && (h->type() != TYPE_CHAR))
+        throw error("var::str(): Not a string");
+    return h ? h->ptrchar() : &z;
 }
 
 
-- 
2.43.0


From 47719d9923d786ca07d4b0ae752fda5094684c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:25 +0000
Subject: [PATCH 78/84] fix: view: a shape is converted rather than assumed to
 be of type int

---
 lube/view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index e69323a..0529a31 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -111,7 +111,7 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
     {
-        mData.ip[i*2+1] = iShape[i].get<int>();
+        mData.ip[i*2+1] = iShape[i].cast<int>();
         mData.ip[i*2+2] = 0;
     }
 
-- 
2.43.0


From c39a6cbda42278b4c5ca8b43ed915739b9fd3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:30 +0000
Subject: [PATCH 79/84] fix: func: operations on an empty array of operands
 don't extend it

---
 lube/func.cpp | 2 +-
 lube/math.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 13a74c6..d2f88ec 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -335,7 +335,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 var NaryFunctor::alloc(var iVar) const
 {
     var r;
-    if (iVar)
+    if (iVar.size() > 0)
         r = iVar[0].copy(true);
     else
         throw error("NaryFunctor::alloc: must override alloc()");
diff --git a/lube/math.cpp b/lube/math.cpp
index 12ac088..696aa78 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1332,6 +1332,8 @@ void Sort::vector(var iVar, var& oVar) const
 var Concatenate::alloc(var iVar) const
 {
     // Basically check that the shapes match
+    if (iVar.size() < 1)
+        throw error("Concatenate: nothing to concatenate");
     int dim = iVar[0].dim();
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
-- 
2.43.0


From a0f7404590330b968829a675501b36de37027498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:54 +0000
Subject: [PATCH 80/84] fix: XML elements of different documents should not
 share the type string

---
 lube/xmlfile.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 249fd36..2718f88 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -206,9 +206,13 @@ var Expat::element()
         elem[DATA] = nil;
         elem[NAME] = nil;
         elem[ATTR] = nil;
-        elem[TYPE] = "text";
+        elem[TYPE] = nil;
     }
-    return elem.copy();
+    var r = elem.copy();
+
+    // Not in the exemplar; the copy would share the string
+    r[TYPE] = "text";
+    return r;
 }
 
 
-- 
2.43.0


From 56692b929882d3b9478b27c0f112fae30fdd0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:56 +0000
Subject: [PATCH 81/84] fix: GEDCOM should refuse a file that cannot be opened

---
 lube/gedfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index aea55fb..6333cc6 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -170,7 +170,7 @@ var GEDCOM::loadFile(var iFileName)
 {
     mInStream.open(iFileName.str());
     if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
+        throw error("GEDCOM::loadFile(): Open failed");
     doFile(readLine());
     mInStream.close();
     return mVar;
-- 
2.43.0


From 1e44f4f844e66be60dd263274589e0293e335b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:59 +0000
Subject: [PATCH 82/84] fix: GEDCOM should refuse a file that ends early rather
 than loop on the last line

---
 lube/gedfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 6333cc6..f5466a6 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -159,7 +159,7 @@ int GEDCOM::readLine()
     if (line.getline(mInStream))
         mField = line.split(" ");
     else
-        std::cout << "Premature end of file" << std::endl;
+        throw error("GEDCOM::readLine(): Premature end of file");
         
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
-- 
2.43.0


From 4892a3f8998fa3f1e0de2a4ee6453255fa961972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:00 +0000
Subject: [PATCH 83/84] fix: a GEDCOM instance that has read a file should be
 able to read another

---
 lube/gedfile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index f5466a6..7ebb951 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -168,6 +168,14 @@ int GEDCOM::readLine()
 
 var GEDCOM::loadFile(var iFileName)
 {
+    // Nothing should remain of any other file
+    mVar.clear();
+    mField.clear();
+    mIndividualMap.clear();
+    mFamilyMap.clear();
+    if (mInStream.is_open())
+        mInStream.close();
+
     mInStream.open(iFileName.str());
     if (mInStream.fail())
         throw error("GEDCOM::loadFile(): Open failed");
-- 
2.43.0


From 01d3b574468178985aaa38ce3ff295385134c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:56 +0000
Subject: [PATCH 84/84] fix: JSON that ends within an array or object should be
 refused, not taken as whole

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 50c6303..ab296f1 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -104,7 +104,7 @@ var JSON::doObject(std::istream& iStream)
             throw error("Unknown character");
         }
     }
-    return obj;
+    throw error("Unterminated JSON object");
 }
 
 /** Convert an array of var to a dense one if everything in it is a number */
@@ -160,7 +160,7 @@ var JSON::doArray(std::istream& iStream)
             arr.push(doValue(iStream));
         }
     }
-    return arr;
+    throw error("Unterminated JSON array");
 }
 
 var JSON::doString(std::istream& iStream)
-- 
2.43.0

