From ed909f102583163bdc5f18624e0cc9e46ce4c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 01/42] fix: moveit has to swap the ownership flag and must not
 narrow the sizes

Assigning to an empty vector left temp with allocated == true and a null
pointer, so that a later, larger assignment stopped with "try to delete nullptr".
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From 94f40900eeab07fb76515e16b08e1136a1f07ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 02/42] fix: taking over the storage of an r value has to take
 over its capacity

The capacity of the new vector stayed 0 and the ownership flag of the r value
stayed set although its pointer was null.
---
 include/etr_bits/Vector/Constructors.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..66f73e8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -199,13 +199,7 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
   } else {
-    std::size_t temp = other_vec.size();
-    d.allocated = other_vec.d.allocated;
-    other_vec.d.sz = this->size();
-    d.sz = temp;
-    T *tempP = other_vec.d.p;
-    other_vec.d.p = d.p;
-    d.p = tempP;
+    d.moveit(other_vec.d);
     if (other_vec.d.im()) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
-- 
2.43.0


From 9b228acda236422a740aaf5a670f652525059351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 03/42] fix: fill with an r value must not lose the capacity
 nor delete borrowed memory

---
 include/etr_bits/Core/BaseStore.hpp | 6 +-----
 include/etr_bits/Core/Borrow.hpp    | 6 ------
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..c5a9574 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -167,11 +167,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
         std::copy(ptr, ptr + sz, p);
       }
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
+      this->moveit(inp.d);
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..54108b8 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -103,12 +103,6 @@ template <typename T, typename BorrowTrait> struct Borrow {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From da681e8b735a6feb2f955894e0777de541c31dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 04/42] fix: back() has to return the last element and not the
 one behind it

---
 include/etr_bits/Core/BaseStore.hpp     | 5 ++++-
 include/etr_bits/Core/Borrow.hpp        | 5 ++++-
 include/etr_bits/Vector/VectorClass.hpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index c5a9574..e9e13c3 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -305,7 +305,10 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() {
+    ass(sz > 0, "Vector is empty");
+    return p[sz - 1];
+  }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index 54108b8..b1b6868 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -148,7 +148,10 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() {
+    ass(sz > 0, "Vector is empty");
+    return p[sz - 1];
+  }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..fdf164e 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,10 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const {
+    ass(this->size() > 0, "Vector is empty");
+    return d.p[this->size() - 1];
+  }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From 32ef5179434893463c0252dc4589175bc306574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 05/42] fix: copying a buffer has to copy its length and its
 matrix shape

---
 include/etr_bits/Core/BaseStore.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index e9e13c3..7ed8386 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,17 +34,18 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
-      std::copy(other.p, other.p + capacity, p);
+      std::copy(other.p, other.p + sz, p);
     } else {
       p = nullptr;
     }
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
@@ -130,17 +131,15 @@ template <typename T, typename BaseTrait> struct BaseStore {
   BaseStore &operator=(const BaseStore<T> &other) { // deep copy
     if (this == &other)
       return *this;
-    if (other.size() > this->sz) {
-      if (allocated) {
-        std::size_t diff = other.size() - this->sz;
-        this->realloc(this->sz + diff);
-      } else {
-        resize(other.size());
-      }
+    if (other.size() > 0) {
+      resize(other.size());
+    } else {
+      this->sz = 0;
     }
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
+    mp.setMatrix(other.mp);
     return *this;
   }
 
-- 
2.43.0


From e19c9eee053db800bfe27e0f7c43938a25f0f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 06/42] fix: a matrix to which a vector or a scalar is assigned
 is no matrix anymore

The shape of the old value was kept, so that e.g. dim() and m[i, j] used
dimensions which do not fit to the stored elements.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..1cdd7dd 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -18,9 +18,11 @@ Vec &operator=(const TD inp) {
       }
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
+      d.setMatrix(false, 0, 0);
       d[0] = inp;
     } else {
       d.resize(1);
+      d.setMatrix(false, 0, 0);
       d[0] = inp;
     }
     return *this;
@@ -31,9 +33,11 @@ Vec &operator=(const TD inp) {
       }
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
+      d.setMatrix(false, 0, 0);
       d[0] = static_cast<T>(inp);
     } else {
       d.resize(1);
+      d.setMatrix(false, 0, 0);
       d[0] = static_cast<T>(inp);
     }
     return *this;
@@ -105,6 +109,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -230,10 +236,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From bb6f248780f26db04d5aaefc34af760a9515d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 07/42] fix: the position within a subset has to be recycled
 along its indices

With more indices than elements in the vector the index list was restarted
too early.
---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
-- 
2.43.0


From e5116bd9399f777b1c74b316f1ee3069d6c9cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 08/42] fix: assigning to a subset must not resize the vector
 behind it

With more indices than elements the vector was resized and its old content
was lost.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 1cdd7dd..d282ac6 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -101,8 +101,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 13a16ef6a85364e0f42e0f30fe9d65a3f97696d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 09/42] fix: an empty operand has to be reported and must not
 divide by zero

e.g. a + b with an empty b stopped the process with SIGFPE.
---
 include/etr_bits/BinaryCalculations.hpp          | 3 +++
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 1 +
 include/etr_bits/UnaryCalculations.hpp           | 1 +
 3 files changed, 5 insertions(+)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..f262fda 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -98,10 +98,13 @@ struct BinaryOperation {
     constexpr bool isDoubleL = std::is_arithmetic_v<L>;
     constexpr bool isDoubleR = std::is_arithmetic_v<R>;
     if constexpr (!isDoubleL && isDoubleR) {
+      ass(l.size() > 0, "Vector is empty");
       return Trait::f(l[i % l.size()], r);
     } else if constexpr (isDoubleL && !isDoubleR) {
+      ass(r.size() > 0, "Vector is empty");
       return Trait::f(l, r[i % r.size()]);
     } else if constexpr (!isDoubleL && !isDoubleR) {
+      ass(l.size() > 0 && r.size() > 0, "Vector is empty");
       return Trait::f(l[i % l.size()], r[i % r.size()]);
     }
   }
diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 9af08c7..f06de48 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -38,6 +38,7 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
 
     using IndexType = ExtractDataType<I>::RetType;
     if constexpr (is<IndexType, bool>) {
+      ass(idx->size() > 0, "invalid index argument");
       std::size_t sizeTrue = 0;
       for (std::size_t i = 0; i < vec.size(); i++)
         if ((*idx)[i % idx->size()])
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..71f6de9 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -47,6 +47,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
     if constexpr (isDouble) {
       return Trait::f(obj);
     } else if constexpr (!isDouble) {
+      ass(obj.size() > 0, "Vector is empty");
       return Trait::f(obj[i % obj.size()]);
     }
   }
-- 
2.43.0


From 06aec179ef3d65d35dc94f58226c5279a006ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 10/42] fix: matrix subsetting with a double as column index
 picked the wrong element

m[double, double] calculated col - 1 * nrow + row and m[vec<double>, double]
did not truncate the column.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..15e608e 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -234,7 +234,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
@@ -437,7 +437,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
       }
       return;
     } else {
-- 
2.43.0


From 465f63f2a996ab4126989e422aa95b559707fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 11/42] fix: m[logical vector, vector] and (m + m)[TRUE, TRUE]
 lost the matrix shape

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 15e608e..7eddb45 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -45,7 +45,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.size());
       for (std::size_t i = 0; i < vec.size(); i++)
         ind[i] = i;
-      mp.setMatrix(vec.d.mp);
+      mp.setMatrix(true, vec.nr(), vec.nc());
       return;
     } else {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
@@ -521,6 +521,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From cf81e20c252dd184043b1b2faeed0f491cef637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 12/42] fix: matrix subsetting has to check scalar indices
 against their own dimension

A scalar index which is larger than its dimension silently picked an element of
another column as long as the linear position was within the matrix.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 7eddb45..7488119 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,10 +35,33 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// NOTE: a scalar index has to be within its own dimension and a logical vector
+// must not be longer than it
+template <typename I>
+inline void checkIndMatrix(const I *idx, const std::size_t extent) {
+  if constexpr (is<I, bool>) {
+    return;
+  } else if constexpr (std::is_integral_v<I>) {
+    ass(*idx >= 1 && static_cast<std::size_t>(*idx) <= extent,
+        "subscript out of bounds");
+  } else if constexpr (std::is_floating_point_v<I>) {
+    ass(*idx >= 1.0 && *idx < static_cast<double>(extent) + 1.0,
+        "subscript out of bounds");
+  } else {
+    using DataType = ExtractDataType<I>::RetType;
+    if constexpr (is<DataType, bool>) {
+      ass(idx->size() >= 1, "invalid index argument");
+      ass(idx->size() <= extent, "Error in matrix: logical subscript too long");
+    }
+  }
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
   ass(vec.im(), "incorrect number of dimensions");
+  checkIndMatrix(idxL, vec.nr());
+  checkIndMatrix(idxR, vec.nc());
   // NOTE: bool + X
   if constexpr (isd<R, bool, C, bool>) {
     if (*idxL && *idxR) {
-- 
2.43.0


From 56b81444ad2b6eb2f6e9dc917a76df903996c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 13/42] fix: a short logical index of a matrix has to be
 recycled along its dimension

This was already done for m[int|double, logical vector] and the other way
round, but not for the combinations with TRUE or another vector.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 7488119..0f0e459 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -104,18 +104,18 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < vec.nc(); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       ass(counter > 0, "subset has to have at least one element");
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0)
           counter2++;
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -316,17 +316,17 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i])
+      for (std::size_t i = 0; i < vec.nr(); i++) {
+        if ((*idxL)[i % idxL->size()])
           counter++;
       }
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0)
           counter2++;
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -474,36 +474,36 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeR, bool> && is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i] == true) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
+        if ((*idxL)[i % idxL->size()] == true) {
           counter++;
         }
       }
       BaseStore<int> positions_rows(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions_rows[counter] = i - counter2 * vec.nr();
           counter++;
         }
       }
       counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < vec.nc(); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       BaseStore<int> positions_cols(counter);
       counter = 0;
       counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions_cols[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -521,17 +521,17 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, bool> &&
                          (is<DataTypeC, int> || is<DataTypeC, double>)) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++)
-        if ((*idxL)[i])
+      for (std::size_t i = 0; i < vec.nr(); i++)
+        if ((*idxL)[i % idxL->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -549,17 +549,17 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++)
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < vec.nc(); i++)
+        if ((*idxR)[i % idxR->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
-- 
2.43.0


From d8445cfcfcacc77279b96ab4fbf234eef7ac7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 14/42] fix: at(m, row, col) has to check the bounds of each
 dimension

at(m, nrow + 1, 1) silently returned the first element of the second column.
---
 include/etr_bits/Subsetting/at.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..8c37f5a 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -58,7 +58,8 @@ inline auto &at(T &inp, R r, C c) {
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
     r--;
     c--;
-    ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(r < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r];
@@ -66,7 +67,8 @@ inline auto &at(T &inp, R r, C c) {
     int r_ = d2i(r);
     r_--;
     c--;
-    ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
+    ass(r_ < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r_];
@@ -74,7 +76,8 @@ inline auto &at(T &inp, R r, C c) {
     r--;
     int c_ = d2i(c);
     c_--;
-    ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(r < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r];
@@ -83,8 +86,8 @@ inline auto &at(T &inp, R r, C c) {
     int c_ = d2i(c);
     r_--;
     c_--;
-    ass((c_ * inp.nr() + r_) >= 0,
-        "Error: out of boundaries --> value below 1");
+    ass(r_ < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r_];
@@ -100,7 +103,8 @@ inline auto at(const T &inp, R r, C c) {
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
     r--;
     c--;
-    ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(r < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r];
@@ -108,7 +112,8 @@ inline auto at(const T &inp, R r, C c) {
     int r_ = d2i(r);
     r_--;
     c--;
-    ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
+    ass(r_ < inp.nr() && c < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r_];
@@ -116,7 +121,8 @@ inline auto at(const T &inp, R r, C c) {
     r--;
     int c_ = d2i(c);
     c_--;
-    ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(r < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r];
@@ -125,8 +131,8 @@ inline auto at(const T &inp, R r, C c) {
     int c_ = d2i(c);
     r_--;
     c_--;
-    ass((c_ * inp.nr() + r_) >= 0,
-        "Error: out of boundaries --> value below 1");
+    ass(r_ < inp.nr() && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r_];
-- 
2.43.0


From 3065f0a124de669540deaae463dcd85714dd046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 15/42] fix: the derivative of a quotient has to be divided by
 the squared denominator

It was divided by the squared derivative of the denominator.
---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..8e41cd8 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From 59f8d224eda9ecf8930e25bc4d7adc8e8756cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 16/42] fix: the derivative of an unary function has to follow
 the chain rule

The outer derivative was evaluated at the derivative of the argument and the
inner derivative was missing.
---
 include/etr_bits/Derivatives/DerivTypes.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..54f30aa 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,7 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From 8a80b3ed018ca734b98b071bca49d28edf9954b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 17/42] fix: variables of different kinds with the same index
 are different variables

Buffer variable 0 and borrowed variable 0 were both treated as independent
variable, and results assigned to a borrowed variable were written to the
buffer variable with the same index.
---
 include/etr_bits/Derivatives/VarPointer.hpp    | 9 ++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..c76c147 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -151,7 +151,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +161,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +171,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index d282ac6..5977f1b 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -182,10 +182,11 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     if constexpr (IsConstant<decltype(otherVec)>) {
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if (d.AllVarsRef.IndepVarIdx == d.I &&
+          d.AllVarsRef.IndepVarTypeIdx == d.TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
           d.setDeriv(d.AllVarsRef, i, 1.0);
         }
@@ -211,7 +212,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
 
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+        d.setVal(d.AllVarsRef, i, temp[i]);
       }
 
     }
-- 
2.43.0


From 14d55865fbee1a13edc01963c576dc102641b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 18/42] fix: derivatives have to be evaluated before the target
 is changed

In a = a * b the own derivative of a was resized, and partly overwritten,
before it was read.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 5977f1b..cd6fc4a 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -205,9 +205,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
+      Buffer<T> tempDeriv;
+      tempDeriv.resize(otherVec.size());
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        tempDeriv[i] = res.getDeriv(d.AllVarsRef, i);
+      }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
       d.resize(otherVec.size());
-- 
2.43.0


From ea55becc237fb5e5c3c5b033675423c4cea1659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 19/42] fix: an unary operation applied to a matrix is a matrix

The test was inverted, so that e.g. sinus(m) lost the shape of m.
---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 71f6de9..7227f4f 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -14,7 +14,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   using typeTraitObj = I;
   MatrixParameter mp;
   bool im() const {
-    if constexpr (std::is_arithmetic_v<I>) {
+    if constexpr (!std::is_arithmetic_v<I>) {
       return obj.im();
     } else {
       return false;
-- 
2.43.0


From 68057bce891e62fc14898fbe06694aaceb0d8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 20/42] fix: the mathematical functions have to be usable with
 scalars

The overloads for double called functions which do not exist.
---
 include/etr_bits/UnaryCalculations.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 7227f4f..fe96f8c 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -108,7 +108,7 @@ template <typename T> auto sinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinus(const T &obj) -> BaseType {
-  return Sinus(obj);
+  return std::sin(obj);
 }
 
 template <typename T> auto sinush(const T &obj) {
@@ -126,7 +126,7 @@ template <typename T> auto sinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinush(const T &obj) -> BaseType {
-  return SinusH(obj);
+  return std::sinh(obj);
 }
 
 template <typename T> auto asinus(const T &obj) {
@@ -144,7 +144,7 @@ template <typename T> auto asinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto asinus(const T &obj) -> BaseType {
-  return ASinus(obj);
+  return std::asin(obj);
 }
 
 template <typename T> auto cosinus(const T &obj) {
@@ -162,7 +162,7 @@ template <typename T> auto cosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinus(const T &obj) -> BaseType {
-  return Cosinus(obj);
+  return std::cos(obj);
 }
 
 template <typename T> auto cosinush(const T &obj) {
@@ -180,7 +180,7 @@ template <typename T> auto cosinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinush(const T &obj) -> BaseType {
-  return CosinusH(obj);
+  return std::cosh(obj);
 }
 
 template <typename T> auto acosinus(const T &obj) {
@@ -198,7 +198,7 @@ template <typename T> auto acosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto acosinus(const T &obj) -> BaseType {
-  return ACosinus(obj);
+  return std::acos(obj);
 }
 
 template <typename T> auto tangens(const T &obj) {
@@ -216,7 +216,7 @@ template <typename T> auto tangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangens(const T &obj) -> BaseType {
-  return Tangens(obj);
+  return std::tan(obj);
 }
 
 template <typename T> auto tangensh(const T &obj) {
@@ -234,7 +234,7 @@ template <typename T> auto tangensh(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangensh(const T &obj) -> BaseType {
-  return TangensH(obj);
+  return std::tanh(obj);
 }
 
 template <typename T> auto atangens(const T &obj) {
@@ -252,7 +252,7 @@ template <typename T> auto atangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto atangens(const T &obj) -> BaseType {
-  return ATangens(obj);
+  return std::atan(obj);
 }
 
 template <typename T> auto ln(const T &obj) {
@@ -271,7 +271,7 @@ template <typename T> auto ln(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto ln(const T &obj) -> BaseType {
-  return log(obj);
+  return std::log(obj);
 }
 
 template <typename T> auto sqroot(const T &obj) {
@@ -289,7 +289,7 @@ template <typename T> auto sqroot(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sqroot(const T &obj) -> BaseType {
-  return SquareRoot(obj);
+  return std::sqrt(obj);
 }
 
 template <typename T>
@@ -308,7 +308,7 @@ auto exp(const T &obj) { // issue: updae this in the documentation
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto exp(const T &obj) -> BaseType {
-  return Exp(obj);
+  return std::exp(obj);
 }
 
 } // namespace etr
-- 
2.43.0


From ea45b7e4afc09a6faa4ee4f819955ad1883f5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 21/42] fix: != has to be the complement of ==

Neither of them was true if the values differ by exactly the tolerance.
---
 include/etr_bits/Core/Traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 8e41cd8..8ecdcf7 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -215,7 +215,7 @@ struct LargerEqualDerivTrait {
 struct UnEqualDerivTrait {
   template <typename L = BaseType, typename R = BaseType>
   static bool f(L a, R b) {
-    if (fabs(a - b) > 1E-3) {
+    if (!(fabs(a - b) < 1E-3)) {
       return true;
     } else {
       return false;
@@ -329,7 +329,7 @@ struct LargerEqualTrait {
 struct UnEqualTrait {
   template <typename L = BaseType, typename R = BaseType>
   static bool f(L a, R b) {
-    if (fabs(a - b) > 1E-3) {
+    if (!(fabs(a - b) < 1E-3)) {
       return true;
     } else {
       return false;
-- 
2.43.0


From a85ecb3da0bbfd3c355217b009847a574a490ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 22/42] fix: linear interpolation read behind the end and used
 an uninitialised slope

Every call of li stopped with an out of boundaries error.
---
 include/etr_bits/Interpolation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..f48e0d5 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -24,15 +24,15 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -40,6 +40,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
@@ -51,15 +52,15 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
       return ret;
     }
     // in boundaries
-    for (std::size_t i = 0; i < timeVec.size(); i++) {
+    for (std::size_t i = 0; i + 1 < timeVec.size(); i++) {
       if (t >= timeVec[i] && t < timeVec[i + 1]) {
         t0 = timeVec[i];
         t1 = timeVec[i + 1];
@@ -67,6 +68,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
-- 
2.43.0


From ee03a9f17e5e0a8390346cdb51b793ebc93bade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 23/42] fix: warn about ignored elements only if there are any

warn prints its message if the condition does not hold, thus the messages were
printed for inputs of length 1 and missing for the longer ones.
---
 include/etr_bits/Allocation/Matrix.hpp | 16 ++++++++--------
 include/etr_bits/Interpolation.hpp     |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/Allocation/Matrix.hpp b/include/etr_bits/Allocation/Matrix.hpp
index 23a1bae..2ccffbf 100644
--- a/include/etr_bits/Allocation/Matrix.hpp
+++ b/include/etr_bits/Allocation/Matrix.hpp
@@ -45,7 +45,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() <= 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -53,7 +53,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() <= 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -62,7 +62,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() <= 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -70,7 +70,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() <= 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -79,9 +79,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() <= 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() <= 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
@@ -89,9 +89,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() <= 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() <= 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index f48e0d5..2011b0a 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -174,7 +174,7 @@ inline double cmr(const A &tInp, const B &timeVec, const C &parVec) {
   using DataTypeTInp = ExtractDataType<std::remove_reference_t<A>>::RetType;
   static_assert(is<DataTypeTInp, double>,
                 "time input vector does not include doubles");
-  warn(tInp.size() > 1,
+  warn(tInp.size() <= 1,
        "time point has more than one element only the first one is used");
   return cmrInternal(&tInp, &timeVec, &parVec);
 }
-- 
2.43.0


From 3d1572d6795f16999ed623bd97b56ed51ae82a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 24/42] fix: vector_logical(n) and vector_integer(n) have to
 create vectors of that type

The type was taken for the type of the length, so that vector_logical(n) with an
l value n had length 1, and the elements were always stored as double.
---
 .../etr_bits/Allocation/AllocationUtils.hpp   |  2 +-
 include/etr_bits/Allocation/Vector.hpp        | 32 +++++++++----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/etr_bits/Allocation/AllocationUtils.hpp b/include/etr_bits/Allocation/AllocationUtils.hpp
index 23aa7ab..3975c68 100644
--- a/include/etr_bits/Allocation/AllocationUtils.hpp
+++ b/include/etr_bits/Allocation/AllocationUtils.hpp
@@ -51,7 +51,7 @@ template <typename T> inline auto createLVec(T s) {
 template <typename T, typename VecType = BaseType> inline auto createRVec(T s) {
   std::size_t size = convertSize(s);
   ass(size > 0, "invalid length argument");
-  return Vec<VecType, Buffer<BaseType, BufferTrait, RBufTrait>, RVecTrait>(
+  return Vec<VecType, Buffer<VecType, BufferTrait, RBufTrait>, RVecTrait>(
       SI{size});
 }
 
diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..31938ad 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -9,14 +9,14 @@ namespace etr {
 
 template <typename T> inline auto vector_integer(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -24,14 +24,14 @@ template <typename T> inline auto vector_integer(const T &inp) {
 
 template <typename T> inline auto vector_integer(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -39,14 +39,14 @@ template <typename T> inline auto vector_integer(T &inp) {
 
 template <typename T> inline auto vector_logical(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<int, bool>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int, bool>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int, bool>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From d472e04390286acf43c4b166fb95fa1fde90cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 25/42] fix: sizes must not be narrowed to int

---
 include/etr_bits/Coca.hpp           | 12 ++++++------
 include/etr_bits/Core/BaseStore.hpp |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Coca.hpp b/include/etr_bits/Coca.hpp
index 5acbcc0..1d21248 100644
--- a/include/etr_bits/Coca.hpp
+++ b/include/etr_bits/Coca.hpp
@@ -81,7 +81,7 @@ template <class F, class... Args> inline F forEachArg(F f, Args &&...args) {
 
 template <typename... Args> inline auto coca(Args &&...args) {
   using cType = decltype(determine_type(args...));
-  int size = 0;
+  std::size_t size = 0;
 
   forEachArg(
       [&](auto arg) {
@@ -115,11 +115,11 @@ template <typename... Args> inline auto coca(Args &&...args) {
           // using InnerType = typename ExtractDataType<tD>::RetType;
           const auto &const_arg = arg;
           if constexpr (std::is_same_v<InnerType, cType>) {
-            for (int i = 0; i < arg.size(); i++) {
+            for (std::size_t i = 0; i < arg.size(); i++) {
               ret[index + i] = arg[i]; // const_arg[i];
             }
           } else {
-            for (int i = 0; i < arg.size(); i++) {
+            for (std::size_t i = 0; i < arg.size(); i++) {
               ret[index + i] = static_cast<cType>(arg[i]);
             }
           }
@@ -133,7 +133,7 @@ template <typename... Args> inline auto coca(Args &&...args) {
 template <int Idx, typename AV, typename... Args>
 inline auto coca(AV &av, Args &&...args) {
   using cType = decltype(determine_type(args...));
-  int size = 0;
+  std::size_t size = 0;
   forEachArg(
       [&](auto arg) {
         if constexpr (std::is_arithmetic_v<decltype(arg)>) {
@@ -163,11 +163,11 @@ inline auto coca(AV &av, Args &&...args) {
           using tD2 = ExtractedTypeD<tD>;
           using InnerType = typename ExtractDataType<tD2>::RetType;
           if constexpr (std::is_same_v<InnerType, cType>) {
-            for (int i = 0; i < arg.size(); i++) {
+            for (std::size_t i = 0; i < arg.size(); i++) {
               av.varConstants[Idx][index + i] = arg[i];
             }
           } else {
-            for (int i = 0; i < arg.size(); i++) {
+            for (std::size_t i = 0; i < arg.size(); i++) {
               av.varConstants[Idx][index + i] = static_cast<cType>(arg[i]);
             }
           }
diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 7ed8386..82bf749 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -312,7 +312,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void realloc(std::size_t new_size) {
     T *temp;
-    capacity = static_cast<int>(new_size * 1.15);
+    capacity = static_cast<std::size_t>(new_size * 1.15);
     temp = new T[capacity];
     for (std::size_t i = 0; i < sz; i++)
       temp[i] = p[i];
@@ -330,7 +330,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void push_back(T input) {
     if (sz == capacity) {
-      int szOld = sz;
+      std::size_t szOld = sz;
       if (sz == 0) {
         realloc(1);
       } else if (sz > 0) {
-- 
2.43.0


From 521b2f9ed9151fa5e0cdd1ec60480576bc37090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 26/42] fix: assigning a scalar to an empty borrowed object
 must not write behind it

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index cd6fc4a..ee613ae 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -17,6 +17,7 @@ Vec &operator=(const TD inp) {
         d[i] = inp;
       }
     } else if constexpr (isBorrow::value) {
+      ass(d.capacity >= 1, "Cannot assign to an empty borrowed object");
       d.sz = 1;
       d.setMatrix(false, 0, 0);
       d[0] = inp;
@@ -32,6 +33,7 @@ Vec &operator=(const TD inp) {
         d[i] = static_cast<T>(inp);
       }
     } else if constexpr (isBorrow::value) {
+      ass(d.capacity >= 1, "Cannot assign to an empty borrowed object");
       d.sz = 1;
       d.setMatrix(false, 0, 0);
       d[0] = static_cast<T>(inp);
-- 
2.43.0


From 7eb03a1ea1b6a84008401581e4e1d19678129d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 27/42] fix: a comparison is a logical vector

---
 include/etr_bits/BinaryCalculations.hpp | 143 +++++++++++-------------
 1 file changed, 65 insertions(+), 78 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index f262fda..c8f705f 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -273,21 +273,18 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, EqualTrait>>(
-        BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, EqualTrait, ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, EqualTrait, ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), EqualTrait>>(
-        BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), EqualTrait, ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), EqualTrait, ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait,
+                                     ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -297,23 +294,21 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
-        BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
+    return Vec<
+        bool, BinaryOperation<decltype(l.d), R, UnEqualTrait, ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, UnEqualTrait, ComparisonTrait>(l.d,
+                                                                         r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
-        BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
-  } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
+        bool, BinaryOperation<L, decltype(r.d), UnEqualTrait, ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), UnEqualTrait, ComparisonTrait>(l,
+                                                                         r.d));
+  } else if constexpr (!isDoubleL && !isDoubleR) {
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait,
+                                     ComparisonTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-                        UnEqualTrait>(l.d, r.d));
+                        UnEqualTrait, ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -323,23 +318,21 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerTrait>>(
-        BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, LargerTrait, ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, LargerTrait, ComparisonTrait>(l.d,
+                                                                        r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerTrait>>(
-        BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), LargerTrait, ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), LargerTrait, ComparisonTrait>(l,
+                                                                        r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait,
+                                     ComparisonTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-                        LargerTrait>(l.d, r.d));
+                        LargerTrait, ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -349,23 +342,21 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
-        BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerEqualTrait,
+                                     ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, LargerEqualTrait, ComparisonTrait>(
+            l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
-        BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerEqualTrait,
+                                     ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), LargerEqualTrait, ComparisonTrait>(
+            l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d),
+                                     LargerEqualTrait, ComparisonTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-                        LargerEqualTrait>(l.d, r.d));
+                        LargerEqualTrait, ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -375,23 +366,21 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerTrait>>(
-        BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
+    return Vec<
+        bool, BinaryOperation<decltype(l.d), R, SmallerTrait, ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, SmallerTrait, ComparisonTrait>(l.d,
+                                                                         r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerTrait>>(
-        BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
-  } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
+        bool, BinaryOperation<L, decltype(r.d), SmallerTrait, ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), SmallerTrait, ComparisonTrait>(l,
+                                                                         r.d));
+  } else if constexpr (!isDoubleL && !isDoubleR) {
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait,
+                                     ComparisonTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-                        SmallerTrait>(l.d, r.d));
+                        SmallerTrait, ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -401,23 +390,21 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
-        BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerEqualTrait,
+                                     ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, SmallerEqualTrait, ComparisonTrait>(
+            l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
-        BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerEqualTrait,
+                                     ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), SmallerEqualTrait, ComparisonTrait>(
+            l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d),
+                                     SmallerEqualTrait, ComparisonTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
-                        SmallerEqualTrait>(l.d, r.d));
+                        SmallerEqualTrait, ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
-- 
2.43.0


From 458d6a3c25c23f8b1cbdd00dae742249a9d5ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 28/42] fix: numeric a:b left elements unset or failed where
 rounding made the fill loop disagree with the length

---
 include/etr_bits/Allocation/Colon.hpp | 28 ++++++++-------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..a8e7f98 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -25,21 +25,15 @@ template <typename T> inline auto colonInternal(T start, T end) {
   if (start < end) {
     std::size_t length = convertSize(end - start + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start + static_cast<T>(i);
     }
     return ret;
   } else {
     std::size_t length = convertSize(start - end + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start - static_cast<T>(i);
     }
     return ret;
   }
@@ -252,22 +246,16 @@ inline auto colonInternalDerivs(AV &av, T start, T end) {
     std::size_t length = convertSize(end - start + 1);
     av.varConstants[Idx].resize(convertSize(length));
     Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      av.varConstants[Idx][i] = start + static_cast<T>(i);
     }
     return ret;
   }
   std::size_t length = convertSize(start - end + 1);
   av.varConstants[Idx].resize(convertSize(length));
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t i = 0; i < length; i++) {
+    av.varConstants[Idx][i] = start - static_cast<T>(i);
   }
   return ret;
 }
-- 
2.43.0


From 124762816ff1d2634819899991065c1fce47857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 29/42] fix: derivatives of nested expressions recycle each
 operand as a whole

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 54f30aa..b7ad457 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -23,12 +23,16 @@ struct QuarternyType {
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)),
+                 RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
 
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx),
-                      LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    // NOTE: as for the values each operand is recycled as a whole
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::fDeriv(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR),
+                      LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
@@ -50,10 +54,12 @@ struct BinaryType {
                                                      : RDeriv::getSize(av);
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)),
+                 RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    return Op::fDeriv(LDeriv::getDeriv(av, idx % LDeriv::getSize(av)),
+                      RDeriv::getDeriv(av, idx % RDeriv::getSize(av)));
   }
 };
 
-- 
2.43.0


From 374f04eb00f40d57b4a60da5e20aebb342b3b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 30/42] fix: logical matrices print true and false like logical
 vectors

---
 include/etr_bits/Printing.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 4064028..61b92f0 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -46,7 +46,7 @@ inline void print(const Vec<L, R> &inp) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -63,7 +63,7 @@ inline void print(const etr::Vec<T, Op, Trait> &inp) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -81,7 +81,7 @@ print(const T &inp) { // issue: just a quick fix for printing unary expression
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -97,7 +97,8 @@ inline void print(const etr::Vec<T, Op, Trait> &inp, AV &av) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp.d.getVal(av, j * inp.nr() + i) << "\t";
+        PRINT_STREAM << std::boolalpha
+                     << inp.d.getVal(av, j * inp.nr() + i) << "\t";
       }
       PRINT_STREAM << std::endl;
     }
-- 
2.43.0


From 02cdb1f1ad4ea78840204e707866caf0e3ab54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 31/42] fix: initBorrow binds the borrowed variables to the
 memory of its arguments

---
 include/etr_bits/Derivatives/AllVars.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 8a0986f..069ee09 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -50,7 +50,7 @@ struct AllVars {
     int idx = 0;
     LoopVariadicT(
         [&](auto arg) {
-          this->varBorrow[idx] = arg;
+          this->varBorrow[idx].d = arg.d;
           idx++;
         },
         args...);
-- 
2.43.0


From 914f5f1606b91fc9b6dee002b65653b11eabcf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 32/42] fix: subset with a size_t, long or float index selects
 the element instead of nothing

---
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index f06de48..af6b0ea 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -34,6 +34,10 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
     ind.resize(1);
     ind[0] = convertSizeSubsetting(*idx) - 1;
     return;
+  } else if constexpr (std::is_arithmetic_v<I>) {
+    ind.resize(1);
+    ind[0] = convertSizeSubsetting(*idx) - 1;
+    return;
   } else if constexpr (IsAV<I>) {
 
     using IndexType = ExtractDataType<I>::RetType;
@@ -66,6 +70,8 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
     } else {
       static_assert(sizeof(T) == 0, "Unknown type of index variable");
     }
+  } else {
+    static_assert(sizeof(T) == 0, "Unknown type of index variable");
   }
 }
 
-- 
2.43.0


From 7f0e2339a9ac08290dc07fc3390e9704e755ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 33/42] fix: at on a constant vector no longer returns a
 writable reference

---
 include/etr_bits/Subsetting/at.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 8c37f5a..3ac1291 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -14,6 +14,15 @@ namespace etr {
 - double double
 */
 
+// the elements of a constant vector are not writable
+template <typename T> inline auto &elementOf(T &inp, std::size_t i) {
+  if constexpr (std::is_const_v<T>) {
+    return std::as_const(inp.d.p[i]);
+  } else {
+    return inp.d.p[i];
+  }
+}
+
 template <typename T, typename R>
   requires(IsRVec<T> || IsSubVec<T> ||
            OperationVec<T> && std::is_arithmetic_v<R>)
@@ -35,7 +44,7 @@ inline auto &at(T &inp, R i) {
   ass(i >= 0, "Error: out of boundaries --> value below 1");
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
-  return inp.d.p[i];
+  return elementOf(inp, i);
 }
 
 template <typename T, typename R>
@@ -47,7 +56,7 @@ inline auto &at(T &inp, R i_) {
   ass(i >= 0, "Error: out of boundaries --> value below 1");
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
-  return inp.d.p[i];
+  return elementOf(inp, i);
 }
 
 template <typename T, typename R, typename C>
@@ -62,7 +71,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c * inp.nr() + r];
+    return elementOf(inp, c * inp.nr() + r);
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
     r_--;
@@ -71,7 +80,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c * inp.nr() + r_];
+    return elementOf(inp, c * inp.nr() + r_);
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
     int c_ = d2i(c);
@@ -80,7 +89,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c_ * inp.nr() + r];
+    return elementOf(inp, c_ * inp.nr() + r);
   } else {
     int r_ = d2i(r);
     int c_ = d2i(c);
@@ -90,7 +99,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c_ * inp.nr() + r_];
+    return elementOf(inp, c_ * inp.nr() + r_);
   }
 }
 
-- 
2.43.0


From cd91f1afc3fd756e1dd7cf4fdf6276a9f6bdc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 34/42] fix: iterating over a subset visits the selected
 elements

---
 include/etr_bits/Core/SubsetClass.hpp   | 13 +++++++++++++
 include/etr_bits/Vector/VectorClass.hpp |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e0b8c8..73edd33 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -2,6 +2,19 @@
 #define SUBSETCLASS_ETR_H
 
 namespace etr {
+// Iterates over the selected elements
+template <typename T, typename S> struct SubsetIt {
+  const S *s;
+  std::size_t i;
+  T &operator*() {
+    ass(s->ind[i] < s->p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return s->p->p[s->ind[i]];
+  }
+  bool operator!=(const SubsetIt &rhs) { return i != rhs.i; }
+  void operator++() { ++i; }
+};
+
 // Points to a Variable and stores indicces in ind
 template <typename T, typename SubsetTrait> struct Subset {
   using RetType = BaseType;
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index fdf164e..f6c94b0 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,14 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return SubsetIt<T, R>{&d, 0};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return SubsetIt<T, R>{&d, this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
-- 
2.43.0


From a1ec18f9fb195f7001c8fc9376cafc2ad1a572c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 35/42] fix: iterating over a constant vector no longer yields
 writable references

---
 include/etr_bits/Vector/VectorClass.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index f6c94b0..88450b0 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -58,20 +58,34 @@ template <typename T, typename R, typename Trait> struct Vec {
   std::size_t nc() const { return d.nc(); }
   std::size_t nr() const { return d.nr(); }
 
-  auto begin() const {
+  auto begin() {
     if constexpr (isSubset::value) {
       return SubsetIt<T, R>{&d, 0};
     } else {
       return It<T>{d.p};
     }
   }
-  auto end() const {
+  auto end() {
     if constexpr (isSubset::value) {
       return SubsetIt<T, R>{&d, this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
   }
+  auto begin() const {
+    if constexpr (isSubset::value) {
+      return SubsetIt<T, R>{&d, 0};
+    } else {
+      return It<const T>{d.p};
+    }
+  }
+  auto end() const {
+    if constexpr (isSubset::value) {
+      return SubsetIt<T, R>{&d, this->size()};
+    } else {
+      return It<const T>{d.p + this->size()};
+    }
+  }
 
   T *getPtr() {
     if constexpr (isVarPointer::value) {
-- 
2.43.0


From 9182eb9a6ec63b21dbb769b701c9a8ac39503b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 36/42] fix: a vector is not accepted as row position of at

---
 include/etr_bits/Subsetting/at.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 3ac1291..ed90f2e 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -60,7 +60,7 @@ inline auto &at(T &inp, R i_) {
 }
 
 template <typename T, typename R, typename C>
-  requires(IsVec<T> && std::is_arithmetic_v<C>)
+  requires(IsVec<T> && std::is_arithmetic_v<R> && std::is_arithmetic_v<C>)
 inline auto &at(T &inp, R r, C c) {
   ass(inp.im() == true, "Input is not a matrix!");
   ass(inp.d.allocated, "No memory was allocated");
@@ -104,9 +104,9 @@ inline auto &at(T &inp, R r, C c) {
 }
 
 template <typename T, typename R, typename C>
-  requires(IsRVec<T> || IsSubVec<T> ||
-           OperationVec<T> && std::is_arithmetic_v<R> &&
-               std::is_arithmetic_v<C>)
+  requires((IsRVec<T> || IsSubVec<T> || OperationVec<T>)&&std::is_arithmetic_v<
+               R> &&
+           std::is_arithmetic_v<C>)
 inline auto at(const T &inp, R r, C c) {
   ass(inp.im() == true, "Input is not a matrix!");
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
-- 
2.43.0


From c8e2435081d0cb25fc58aead9562bffd4e93c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 37/42] fix: rep and matrix reject sizes that are neither
 numbers nor vectors

---
 include/etr_bits/Allocation/Matrix.hpp | 3 +++
 include/etr_bits/Allocation/Rep.hpp    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/etr_bits/Allocation/Matrix.hpp b/include/etr_bits/Allocation/Matrix.hpp
index 2ccffbf..ff678be 100644
--- a/include/etr_bits/Allocation/Matrix.hpp
+++ b/include/etr_bits/Allocation/Matrix.hpp
@@ -30,6 +30,9 @@ TODO: Matrix missing implementation with 3 args
 
 template <typename V, typename R, typename C>
 inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
+  static_assert((std::is_arithmetic_v<R> || IsAV<R>)&&(
+                    std::is_arithmetic_v<C> || IsAV<C>),
+                "Unsupported type of nrow or ncol in matrix");
   if constexpr (std::is_arithmetic_v<R> && std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
diff --git a/include/etr_bits/Allocation/Rep.hpp b/include/etr_bits/Allocation/Rep.hpp
index c618b3b..39b38f0 100644
--- a/include/etr_bits/Allocation/Rep.hpp
+++ b/include/etr_bits/Allocation/Rep.hpp
@@ -24,6 +24,7 @@ namespace etr {
 
 template <typename L, typename R>
 inline auto repInternal(const L *inp, const R *s) {
+  static_assert(std::is_arithmetic_v<R> || IsAV<R>, "Unsupported type in rep");
   if constexpr (std::is_arithmetic_v<L> && std::is_arithmetic_v<R>) {
     std::size_t length = convertSize(*s);
     Vec<L, Buffer<L, BufferTrait, RBufTrait>, RVecTrait> ret(SI{length});
-- 
2.43.0


From 28bd7be81734b6df87de061a9a24e6ff29d72b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 38/42] fix: quotients and functions of integer or logical
 vectors keep their fractions in rep, colon and matrix

---
 include/etr_bits/BinaryCalculations.hpp |  7 ++++---
 include/etr_bits/UnaryCalculations.hpp  | 27 +++++++++++++------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index c8f705f..0dec4eb 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -226,18 +226,19 @@ template <typename L, typename R> auto operator/(const L &l, const R &r) {
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
     return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+                                         R, BaseType>::type,
                BinaryOperation<decltype(l.d), R, DivideTrait>>(
         BinaryOperation<decltype(l.d), R, DivideTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
     return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+                   L, typename ExtractDataType<R>::RetType, BaseType>::type,
                BinaryOperation<L, decltype(r.d), DivideTrait>>(
         BinaryOperation<L, decltype(r.d), DivideTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
         typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+                                  typename ExtractDataType<R>::RetType,
+                                  BaseType>::type,
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>(l.d, r.d));
   } else {
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index fe96f8c..7cd7b27 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -83,7 +83,8 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
 template <typename T> auto operator-(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<typename std::common_type<typename ExtractDataType<T>::RetType,
+                                         int>::type,
                UnaryOperation<decltype(obj.d), MinusUnaryTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), MinusUnaryTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -96,7 +97,7 @@ template <typename T> auto operator-(const T &obj) {
 template <typename T> auto sinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -114,7 +115,7 @@ auto sinus(const T &obj) -> BaseType {
 template <typename T> auto sinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -132,7 +133,7 @@ auto sinush(const T &obj) -> BaseType {
 template <typename T> auto asinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ASinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ASinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -150,7 +151,7 @@ auto asinus(const T &obj) -> BaseType {
 template <typename T> auto cosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -168,7 +169,7 @@ auto cosinus(const T &obj) -> BaseType {
 template <typename T> auto cosinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -186,7 +187,7 @@ auto cosinush(const T &obj) -> BaseType {
 template <typename T> auto acosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ACosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ACosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -204,7 +205,7 @@ auto acosinus(const T &obj) -> BaseType {
 template <typename T> auto tangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -222,7 +223,7 @@ auto tangens(const T &obj) -> BaseType {
 template <typename T> auto tangensh(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -240,7 +241,7 @@ auto tangensh(const T &obj) -> BaseType {
 template <typename T> auto atangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ATangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ATangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -258,7 +259,7 @@ auto atangens(const T &obj) -> BaseType {
 template <typename T> auto ln(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), LogTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), LogTrait>(obj.d));
   } else if constexpr (isDouble) { // issue: this should be never be used. Also
@@ -277,7 +278,7 @@ auto ln(const T &obj) -> BaseType {
 template <typename T> auto sqroot(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SquareRootTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SquareRootTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -296,7 +297,7 @@ template <typename T>
 auto exp(const T &obj) { // issue: updae this in the documentation
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ExpTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ExpTrait>(obj.d));
   } else if constexpr (isDouble) {
-- 
2.43.0


From 7511a2197a74834c1ba551b511a48d7d517d16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 39/42] fix: print and << write the selected elements of a
 subset

operator<< used the storage pointer of the vector as an array, so for a
subset it printed the whole object (and memory behind it) instead of the
selected elements. print wrote the elements of integer and logical subsets
as numbers of type double (1.23457e+06, 1 and 0) instead of 1234567, true
and false.
---
 include/etr_bits/Printing.hpp           | 15 +++++++++++++--
 include/etr_bits/Vector/VectorClass.hpp |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 61b92f0..c960623 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -70,18 +70,29 @@ inline void print(const etr::Vec<T, Op, Trait> &inp) {
   }
 }
 
+// a subset is indexed as BaseType, its elements have the type of the object
+template <typename T>
+inline auto printedElement(const T &inp, std::size_t i) {
+  if constexpr (IsSubVec<T>) {
+    return inp.d[i];
+  } else {
+    return inp[i];
+  }
+}
+
 template <typename T> // issue: unnecessary new line
   requires(!isBID<T>)
 inline void
 print(const T &inp) { // issue: just a quick fix for printing unary expression
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << std::boolalpha << printedElement(inp, i) << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha
+                     << printedElement(inp, j * inp.nr() + i) << "\t";
       }
       PRINT_STREAM << std::endl;
     }
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index 88450b0..d08628b 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -106,7 +106,7 @@ template <typename T, typename R, typename Trait> struct Vec {
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
     os << "Vec [ ";
     for (std::size_t i = 0; i < vec.size(); i++) {
-      os << vec.d.p[i] << " ";
+      os << vec.d[i] << " ";
     }
     os << "]";
     return os;
-- 
2.43.0


From 53782f005bef007bbc15c17e6b047f4be71ba7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 40/42] fix: keep the old block of a vector until the new one
 has been allocated

---
 include/etr_bits/Core/BaseStore.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 82bf749..d5dbdfe 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -241,14 +241,16 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
 
   void init(std::size_t size) {
+    ass(!allocated || p != nullptr, "try to delete nullptr");
+    // NOTE: the old block is kept until the new one exists
+    const std::size_t newCapacity = static_cast<std::size_t>(1.15 * size);
+    T *newP = new T[newCapacity];
     if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
       delete[] p;
-      p = nullptr;
     }
     sz = size;
-    capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    capacity = newCapacity;
+    p = newP;
     allocated = true;
   }
   void resize(std::size_t newSize) {
@@ -260,9 +262,13 @@ template <typename T, typename BaseTrait> struct BaseStore {
     } else {
       if (newSize > capacity) {
         ass(p != nullptr, "try to delete nullptr");
+        // NOTE: the old block is kept until the new one exists
+        const std::size_t newCapacity =
+            static_cast<std::size_t>(newSize * 1.15);
+        T *newP = new T[newCapacity];
         delete[] p;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
+        capacity = newCapacity;
+        p = newP;
         sz = newSize;
         allocated = true;
         fill(T());
@@ -312,8 +318,9 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void realloc(std::size_t new_size) {
     T *temp;
-    capacity = static_cast<std::size_t>(new_size * 1.15);
-    temp = new T[capacity];
+    const std::size_t newCapacity = static_cast<std::size_t>(new_size * 1.15);
+    temp = new T[newCapacity];
+    capacity = newCapacity;
     for (std::size_t i = 0; i < sz; i++)
       temp[i] = p[i];
 
-- 
2.43.0


From 782cc8208a38fa146be8bee15d1d6a09e0452e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:31 +0000
Subject: [PATCH 41/42] fix: shrinking a storage block with realloc copied past
 the new block

---
 include/etr_bits/Core/BaseStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index d5dbdfe..3e19e56 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -321,7 +321,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
     const std::size_t newCapacity = static_cast<std::size_t>(new_size * 1.15);
     temp = new T[newCapacity];
     capacity = newCapacity;
-    for (std::size_t i = 0; i < sz; i++)
+    for (std::size_t i = 0; i < sz && i < new_size; i++)
       temp[i] = p[i];
 
     for (std::size_t i = sz; i < new_size; i++)
-- 
2.43.0


From a6f9d66de56f697bee1e769ca6aaec25c7c659fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:36 +0000
Subject: [PATCH 42/42] fix: a failing assignment to a borrowed variable left
 its derivatives changed

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index ee613ae..5df2bde 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -212,12 +212,13 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         tempDeriv[i] = res.getDeriv(d.AllVarsRef, i);
       }
+      // NOTE: may fail for borrowed variables, thus before anything is written
+      d.resize(otherVec.size());
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
-      d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         d.setVal(d.AllVarsRef, i, temp[i]);
       }
-- 
2.43.0

