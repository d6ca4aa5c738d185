From e514f21d2b1df3754c50b477a2e1df53dd290382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 01/60] fix: define the declared TokenList::operator[]

---
 src/core/tokenList.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/tokenList.cpp b/src/core/tokenList.cpp
index f1f729e..2d5892b 100644
--- a/src/core/tokenList.cpp
+++ b/src/core/tokenList.cpp
@@ -37,6 +37,19 @@ void TokenList::remove(size_t index)
 
 [[nodiscard]] size_t TokenList::size() const { return data_.size(); }
 
+std::any& TokenList::operator[](const size_t& idx)
+{
+    try
+    {
+        return data_.at(idx);
+    }
+    catch (const std::out_of_range& e)
+    {
+        logOutRange(e, idx, data_);
+        throw e;
+    }
+}
+
 [[nodiscard]] std::vector<std::any>& TokenList::tokens() { return data_; }
 
 } // namespace NeoFOAM
-- 
2.43.0


From 84f34123acced61fd5f7139a18001be8ba38e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 02/60] fix: keep the TokenList reading position when earlier
 tokens are removed

---
 include/NeoFOAM/core/tokenList.hpp | 2 +-
 src/core/tokenList.cpp             | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/tokenList.hpp b/include/NeoFOAM/core/tokenList.hpp
index 6eea10f..51bda31 100644
--- a/include/NeoFOAM/core/tokenList.hpp
+++ b/include/NeoFOAM/core/tokenList.hpp
@@ -71,7 +71,7 @@ public:
     ReturnType popFront()
     {
         ReturnType ret {get<ReturnType>(0)};
-        data_.erase(data_.begin());
+        remove(0);
         return ret;
     }
 
diff --git a/src/core/tokenList.cpp b/src/core/tokenList.cpp
index 2d5892b..84c544d 100644
--- a/src/core/tokenList.cpp
+++ b/src/core/tokenList.cpp
@@ -31,6 +31,11 @@ void TokenList::insert(const std::any& value) { data_.push_back(value); }
 void TokenList::remove(size_t index)
 {
     data_.erase(data_.begin() + static_cast<std::vector<double>::difference_type>(index));
+    // keep the sequential reader on the token it would deliver next
+    if (nextIndex_ > index)
+    {
+        nextIndex_--;
+    }
 }
 
 [[nodiscard]] bool TokenList::empty() const { return data_.empty(); }
-- 
2.43.0


From 3065ac681e04534f8424bba513aeed2e899d0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 03/60] fix: make NF_ASSERT_THROW compile by streaming its
 message

---
 include/NeoFOAM/core/error.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index d169dd1..237b35e 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -169,7 +169,11 @@ private:
     {                                                                                              \
         if (!(condition)) [[unlikely]]                                                             \
         {                                                                                          \
-            NF_THROW("Assertion `" #condition "` failed.\n       " << message);                    \
+            throw NeoFOAM::NeoFOAMException(                                                       \
+                (std::stringstream()                                                               \
+                 << NF_ERROR_MESSAGE("Assertion `" #condition "` failed.\n       " << message))    \
+                    .str()                                                                         \
+            );                                                                                     \
         }                                                                                          \
     }                                                                                              \
     while (false)
-- 
2.43.0


From 87990c56c406c897235dae9da54791da41398b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 04/60] fix: patchEnd returns the end of the patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From 769c379be1e73a3ce871129bc23260890f839eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 05/60] fix: parenthesise the operands of the NF_ASSERT_EQUAL
 family

---
 include/NeoFOAM/core/error.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index 237b35e..e88c882 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -242,7 +242,7 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_ASSERT_EQUAL(a, b) NF_ASSERT(a == b, "Expected " << b << ", got " << a)
+#define NF_ASSERT_EQUAL(a, b) NF_ASSERT((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_DEBUG_ASSERT_EQUAL
@@ -254,7 +254,7 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_DEBUG_ASSERT_EQUAL(a, b) NF_DEBUG_ASSERT(a == b, "Expected " << b << ", got " << a)
+#define NF_DEBUG_ASSERT_EQUAL(a, b) NF_DEBUG_ASSERT((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_ASSERT_EQUAL_THROW
@@ -269,7 +269,7 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_ASSERT_EQUAL_THROW(a, b) NF_ASSERT_THROW(a == b, "Expected " << b << ", got " << a)
+#define NF_ASSERT_EQUAL_THROW(a, b) NF_ASSERT_THROW((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_DEBUG_ASSERT_EQUAL_THROW
@@ -282,4 +282,4 @@ private:
  * @param b The expected value to be compared.
  */
 #define NF_DEBUG_ASSERT_EQUAL_THROW(a, b)                                                          \
-    NF_DEBUG_ASSERT_THROW(a == b, "Expected " << b << ", got " << a)
+    NF_DEBUG_ASSERT_THROW((a) == (b), "Expected " << (b) << ", got " << (a))
-- 
2.43.0


From 210a6390e1e76e08efab62a6bd618348ced15ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 06/60] fix: popFront returns a nested token list instead of a
 list holding it

---
 include/NeoFOAM/core/tokenList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/tokenList.hpp b/include/NeoFOAM/core/tokenList.hpp
index 51bda31..b9ba798 100644
--- a/include/NeoFOAM/core/tokenList.hpp
+++ b/include/NeoFOAM/core/tokenList.hpp
@@ -70,7 +70,7 @@ public:
     template<typename ReturnType>
     ReturnType popFront()
     {
-        ReturnType ret {get<ReturnType>(0)};
+        ReturnType ret = get<ReturnType>(0);
         remove(0);
         return ret;
     }
-- 
2.43.0


From c16c09eb077f91f1ed0c6c82b2ce1c21d641741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 07/60] fix: make NF_DINFO a single statement in debug builds

---
 include/NeoFOAM/core/info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/core/info.hpp b/include/NeoFOAM/core/info.hpp
index bd212ec..688ce7a 100644
--- a/include/NeoFOAM/core/info.hpp
+++ b/include/NeoFOAM/core/info.hpp
@@ -27,8 +27,8 @@
  */
 #ifdef NF_DEBUG_MESSAGING
 #define NF_DINFO(message)                                                                          \
-    std::cout << std::endl << "[NF][" << __FILE__ << "::" << __LINE__ << "]: ";                    \
-    NF_INFO(message)
+    std::cout << std::endl                                                                         \
+              << "[NF][" << __FILE__ << "::" << __LINE__ << "]: " << message << std::endl
 #else
 #define NF_DINFO(message) ((void)0)
 #endif
-- 
2.43.0


From f87f0bfbfef6976204b2eae3be9b51cafaf9cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 08/60] fix: make the equal-length check a single statement

---
 include/NeoFOAM/helpers/exceptions.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/helpers/exceptions.hpp b/include/NeoFOAM/helpers/exceptions.hpp
index ae99391..becc8a0 100644
--- a/include/NeoFOAM/helpers/exceptions.hpp
+++ b/include/NeoFOAM/helpers/exceptions.hpp
@@ -94,10 +94,19 @@ public:
  *                           rows or columns
  */
 #define NeoFOAM_ASSERT_EQUAL_LENGTH(_op1, _op2)                                                    \
-    if (_op1.size() != _op2.size())                                                                \
+    do                                                                                             \
     {                                                                                              \
-        throw ::NeoFOAM::DimensionMismatch(                                                        \
-            __FILE__, __LINE__, __func__, _op1.size(), _op2.size(), "expected equal dimensions"    \
-        );                                                                                         \
-    }
+        if ((_op1).size() != (_op2).size())                                                        \
+        {                                                                                          \
+            throw ::NeoFOAM::DimensionMismatch(                                                    \
+                __FILE__,                                                                          \
+                __LINE__,                                                                          \
+                __func__,                                                                          \
+                (_op1).size(),                                                                     \
+                (_op2).size(),                                                                     \
+                "expected equal dimensions"                                                        \
+            );                                                                                     \
+        }                                                                                          \
+    }                                                                                              \
+    while (false)
 }
-- 
2.43.0


From 173f36554b910617ea80d31a399b13462d62099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 09/60] fix: start serial reductions from the neutral element
 as the other executors do

---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..83d5c15 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -104,6 +104,23 @@ void parallelFor(Field<ValueType>& field, Kernel kernel, std::string name = "par
     std::visit([&](const auto& e) { parallelFor(e, field, kernel, name); }, field.exec());
 }
 
+namespace detail
+{
+// sets the target of a reduction to the neutral element, as the Kokkos::parallel_reduce does
+template<typename T>
+void resetReduction(T& value)
+{
+    if constexpr (Kokkos::is_reducer<T>::value)
+    {
+        value.init(value.reference());
+    }
+    else
+    {
+        value = T();
+    }
+}
+}
+
 template<typename Executor, typename Kernel, typename T>
 void parallelReduce(
     [[maybe_unused]] const Executor& exec, std::pair<size_t, size_t> range, Kernel kernel, T& value
@@ -112,6 +129,7 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        detail::resetReduction(value);
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -150,6 +168,7 @@ void parallelReduce(
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
         size_t fieldSize = field.size();
+        detail::resetReduction(value);
         for (size_t i = 0; i < fieldSize; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
-- 
2.43.0


From 7bb128cf7d4ffd8cd48f8068ad69f1f1d36b4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 10/60] fix: let an explicit empty range of map, fill and
 setField address no entry

---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index bf14c75..96782ac 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -2,7 +2,9 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <limits>
 #include <tuple>
+#include <utility>
 
 #include <Kokkos_Core.hpp>
 #include "NeoFOAM/core/primitives/label.hpp"
@@ -17,6 +19,11 @@ namespace NeoFOAM
 template<typename ValueType>
 class Field;
 
+namespace detail
+{
+// the range argument that stands for the whole field
+inline constexpr std::pair<size_t, size_t> wholeField {0, std::numeric_limits<size_t>::max()};
+}
 
 /**
  * @brief Map a field using a specific executor.
@@ -26,10 +33,10 @@ class Field;
  * @param range The range to map the field in. If not provided, the whole field is mapped.
  */
 template<typename T, typename Inner>
-void map(Field<T>& a, const Inner inner, std::pair<size_t, size_t> range = {0, 0})
+void map(Field<T>& a, const Inner inner, std::pair<size_t, size_t> range = detail::wholeField)
 {
     auto [start, end] = range;
-    if (end == 0)
+    if (range == detail::wholeField)
     {
         end = a.size();
     }
@@ -50,11 +57,11 @@ template<typename ValueType>
 void fill(
     Field<ValueType>& a,
     const std::type_identity_t<ValueType> value,
-    std::pair<size_t, size_t> range = {0, 0}
+    std::pair<size_t, size_t> range = detail::wholeField
 )
 {
     auto [start, end] = range;
-    if (end == 0)
+    if (range == detail::wholeField)
     {
         end = a.size();
     }
@@ -76,11 +83,11 @@ template<typename ValueType>
 void setField(
     Field<ValueType>& a,
     const View<const std::type_identity_t<ValueType>> b,
-    std::pair<size_t, size_t> range = {0, 0}
+    std::pair<size_t, size_t> range = detail::wholeField
 )
 {
     auto [start, end] = range;
-    if (end == 0)
+    if (range == detail::wholeField)
     {
         end = a.size();
     }
-- 
2.43.0


From 3357917be344ca74a982fbbb9d54af1191f9eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 11/60] fix: reuse the block of a field that was resized to
 zero

---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..fadbb29 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -308,7 +308,7 @@ public:
     void resize(const size_t size)
     {
         void* ptr = nullptr;
-        if (!empty())
+        if (data_ != nullptr)
         {
             std::visit(
                 [this, &ptr, size](const auto& exec)
-- 
2.43.0


From 52cea2c2b11a817ab6375e4941b8fbfe241fb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 12/60] fix: make scaling a field of non-scalars by a scalar
 field compile

---
 include/NeoFOAM/fields/field.hpp              |  3 ++-
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index fadbb29..70ee477 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -424,7 +424,8 @@ private:
      * @brief Checks if two fields are the same size and have the same executor.
      * @param rhs The field to compare with.
      */
-    void validateOtherField(const Field<ValueType>& rhs) const
+    template<typename OtherType>
+    void validateOtherField(const Field<OtherType>& rhs) const
     {
         NF_DEBUG_ASSERT(size() == rhs.size(), "Fields are not the same size.");
         NF_DEBUG_ASSERT(exec() == rhs.exec(), "Executors are not the same.");
diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index 96782ac..f73a1a8 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -8,6 +8,7 @@
 
 #include <Kokkos_Core.hpp>
 #include "NeoFOAM/core/primitives/label.hpp"
+#include "NeoFOAM/core/primitives/scalar.hpp"
 #include "NeoFOAM/helpers/exceptions.hpp"
 #include "NeoFOAM/core/parallelAlgorithms.hpp"
 #include "NeoFOAM/core/view.hpp"
@@ -108,10 +109,8 @@ void scalarMul(Field<ValueType>& a, const scalar value)
 
 namespace detail
 {
-template<typename ValueType, typename BinaryOp>
-void fieldBinaryOp(
-    Field<ValueType>& a, const Field<std::type_identity_t<ValueType>>& b, BinaryOp op
-)
+template<typename ValueType, typename OtherType, typename BinaryOp>
+void fieldBinaryOp(Field<ValueType>& a, const Field<OtherType>& b, BinaryOp op)
 {
     NeoFOAM_ASSERT_EQUAL_LENGTH(a, b);
     auto viewA = a.view();
@@ -147,6 +146,16 @@ void mul(Field<ValueType>& a, const Field<std::type_identity_t<ValueType>>& b)
     );
 }
 
+// scaling of fields that do not hold scalars themselves
+template<typename ValueType>
+    requires(!std::is_same_v<ValueType, scalar>)
+void mul(Field<ValueType>& a, const Field<scalar>& b)
+{
+    detail::fieldBinaryOp(
+        a, b, KOKKOS_LAMBDA(ValueType va, scalar vb) { return static_cast<ValueType>(va * vb); }
+    );
+}
+
 template<typename... Args>
 auto spans(Args&... fields)
 {
-- 
2.43.0


From 4e1aa038d62b19d460c6aa410baad3b33ba66d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 13/60] fix: make the comparison of a field with a view compile

---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index f73a1a8..57b4630 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -208,7 +208,8 @@ bool equal(const Field<T>& field, const Field<T>& field2)
 template<typename T>
 bool equal(const Field<T>& field, View<T> span2)
 {
-    auto hostView = field.copyToHost().view();
+    const auto hostField = field.copyToHost();
+    auto hostView = hostField.view();
 
     if (hostView.size() != span2.size())
     {
-- 
2.43.0


From ea1df1982c52ad194e72b832e1f30f594a00facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 14/60] fix: make the empty DomainField constructor compile

---
 include/NeoFOAM/fields/domainField.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/domainField.hpp b/include/NeoFOAM/fields/domainField.hpp
index 418855a..f1e6d0b 100644
--- a/include/NeoFOAM/fields/domainField.hpp
+++ b/include/NeoFOAM/fields/domainField.hpp
@@ -33,7 +33,7 @@ class DomainField
 public:
 
     DomainField(const Executor& exec)
-        : exec_(exec), internalField_(exec, 0), boundaryFields_(exec, 0, 0)
+        : exec_(exec), internalField_(exec, 0), boundaryFields_(exec, std::vector<localIdx> {0})
     {}
 
     DomainField(const Executor& exec, size_t nCells, std::vector<localIdx> offsets)
-- 
2.43.0


From 4663f499414206e434ff9a19fe2332265709fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 15/60] fix: boundary fields copied to an executor report that
 executor

---
 include/NeoFOAM/fields/boundaryFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 7ac3584..4b48b76 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -49,7 +49,7 @@ public:
      * @param rhs The boundaryFields object to be copied.
      */
     BoundaryFields(const Executor& exec, const BoundaryFields<T>& rhs)
-        : exec_(rhs.exec_), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
+        : exec_(exec), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
           valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),
           boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),
           nBoundaries_(rhs.nBoundaries_), nBoundaryFaces_(rhs.nBoundaryFaces_)
-- 
2.43.0


From 70452cb71a610e1fe11e8d34258c984b2661132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 16/60] fix: read the patch offsets of boundary fields on the
 host

---
 include/NeoFOAM/fields/boundaryFields.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 4b48b76..c9ae802 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -133,7 +133,9 @@ public:
      */
     std::pair<localIdx, localIdx> range(localIdx patchId) const
     {
-        return {offset_.data()[patchId], offset_.data()[patchId + 1]};
+        const auto hostOffset = offset_.copyToHost();
+        const auto offsets = hostOffset.view();
+        return {offsets[patchId], offsets[patchId + 1]};
     }
 
 private:
-- 
2.43.0


From 7c8394316b1754190b11139c9f45b78ad5d93e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 17/60] fix: the single cell mesh reports its cell centre as
 the boundary cell centres

---
 src/mesh/unstructured/unstructuredMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/unstructured/unstructuredMesh.cpp b/src/mesh/unstructured/unstructuredMesh.cpp
index 0cb9468..d02991c 100644
--- a/src/mesh/unstructured/unstructuredMesh.cpp
+++ b/src/mesh/unstructured/unstructuredMesh.cpp
@@ -82,7 +82,7 @@ UnstructuredMesh createSingleCellMesh(const Executor exec)
         exec,
         {exec, {0, 0, 0, 0}},                                                           // faceCells
         faceCentresVectors,                                                             // cf
-        faceAreasVectors,                                                               // cn,
+        {exec, 4, {0.5, 0.5, 0.0}},                                                     // cn,
         faceAreasVectors,                                                               // sf,
         magFaceAreas,                                                                   // magSf,
         faceAreasVectors,                                                               // nf,
-- 
2.43.0


From f905952a21f7d4679cd96fb3ffc487bf6c9dfb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 18/60] fix: interpolate fields of any type along a scalar flux

---
 .../cellCentred/interpolation/surfaceInterpolation.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
index 1a91d1d..523e6d9 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
@@ -146,7 +146,7 @@ public:
     }
 
     SurfaceField<ValueType>
-    interpolate(const SurfaceField<ValueType>& flux, const VolumeField<ValueType>& src) const
+    interpolate(const SurfaceField<scalar>& flux, const VolumeField<ValueType>& src) const
     {
         std::string name = "interpolated_" + src.name;
         SurfaceField<ValueType> dst(
-- 
2.43.0


From 7eb315ddbc96f05b28e271fc9f60f6278ba1707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 19/60] fix: upwind weights are computed instead of left unset

---
 .../cellCentred/interpolation/upwind.hpp         | 11 +++++++++--
 .../cellCentred/interpolation/upwind.cpp         | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
index 1e5979e..c295572 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
@@ -35,6 +35,13 @@ void computeUpwindInterpolation(
     SurfaceField<ValueType>& dst
 );
 
+/* @brief computional kernel for the weights of the owner value in an upwind interpolation
+**
+** @param flux the face flux that determines the upwind direction
+** @param weights one where the owner is upwind and on boundary faces, zero otherwise
+*/
+void computeUpwindWeights(const SurfaceField<scalar>& flux, SurfaceField<scalar>& weights);
+
 template<typename ValueType>
 class Upwind : public SurfaceInterpolationFactory<ValueType>::template Register<Upwind<ValueType>>
 {
@@ -76,11 +83,11 @@ public:
 
     void weight(
         const SurfaceField<scalar>& flux,
-        const VolumeField<ValueType>& src,
+        [[maybe_unused]] const VolumeField<ValueType>& src,
         SurfaceField<scalar>& weight
     ) const override
     {
-        // geometryScheme_->weights(flux, src, weight);
+        computeUpwindWeights(flux, weight);
     }
 
     std::unique_ptr<SurfaceInterpolationFactory<ValueType>> clone() const override
diff --git a/src/finiteVolume/cellCentred/interpolation/upwind.cpp b/src/finiteVolume/cellCentred/interpolation/upwind.cpp
index 1cdd94a..f4ccf4f 100644
--- a/src/finiteVolume/cellCentred/interpolation/upwind.cpp
+++ b/src/finiteVolume/cellCentred/interpolation/upwind.cpp
@@ -55,6 +55,22 @@ void computeUpwindInterpolation(
     );
 }
 
+void computeUpwindWeights(const SurfaceField<scalar>& flux, SurfaceField<scalar>& weights)
+{
+    auto weightS = weights.internalField().view();
+    const auto fluxS = flux.internalField().view();
+    const size_t nInternalFaces = weights.mesh().nInternalFaces();
+
+    NeoFOAM::parallelFor(
+        weights.exec(),
+        {0, weightS.size()},
+        KOKKOS_LAMBDA(const size_t facei) {
+            weightS[facei] = (facei >= nInternalFaces || fluxS[facei] >= 0) ? 1.0 : 0.0;
+        },
+        "computeUpwindWeights"
+    );
+}
+
 #define NF_DECLARE_COMPUTE_IMP_UPW_INT(TYPENAME)                                                   \
     template void computeUpwindInterpolation<                                                      \
         TYPENAME>(const VolumeField<TYPENAME>&, const SurfaceField<scalar>&, const SurfaceField<scalar>&, SurfaceField<TYPENAME>&)
-- 
2.43.0


From 37adf77353e6560d9dbed8963773189e1243baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 20/60] fix: matrix offsets of cells with more than 255
 neighbours do not wrap

---
 .../cellCentred/linearAlgebra/sparsityPattern.hpp    | 12 ++++++------
 .../cellCentred/linearAlgebra/sparsityPattern.cpp    | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp b/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp
index d62dac9..7b018ae 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp
@@ -26,12 +26,12 @@ public:
     void update();
 
     // TODO: rename upperOffset
-    const Field<uint8_t>& ownerOffset() const;
+    const Field<localIdx>& ownerOffset() const;
 
     // TODO: rename lowerOffset
-    const Field<uint8_t>& neighbourOffset() const;
+    const Field<localIdx>& neighbourOffset() const;
 
-    const Field<uint8_t>& diagOffset() const;
+    const Field<localIdx>& diagOffset() const;
 
     const UnstructuredMesh& mesh() const { return mesh_; };
 
@@ -54,11 +54,11 @@ private:
 
     Field<localIdx> colIdxs_; //!
 
-    Field<uint8_t> ownerOffset_; //! mapping from faceId to lower index in a row
+    Field<localIdx> ownerOffset_; //! mapping from faceId to lower index in a row
 
-    Field<uint8_t> neighbourOffset_; //! mapping from faceId to upper index in a row
+    Field<localIdx> neighbourOffset_; //! mapping from faceId to upper index in a row
 
-    Field<uint8_t> diagOffset_; //! mapping from faceId to column index in a row
+    Field<localIdx> diagOffset_; //! mapping from faceId to column index in a row
 };
 
 } // namespace NeoFOAM::finiteVolume::cellCentred
diff --git a/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp b/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp
index 413cee7..cd2d270 100644
--- a/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp
+++ b/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp
@@ -74,7 +74,7 @@ void SparsityPattern::update()
             // return the oldValues
             // hit on performance on serial
             size_t segIdxNei = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[neighbour], 1);
-            neighbourOffsetSpan[facei] = static_cast<uint8_t>(segIdxNei);
+            neighbourOffsetSpan[facei] = static_cast<localIdx>(segIdxNei);
 
             size_t startSegNei = rowPtrs[neighbour];
             // neighbour --> current cell
@@ -87,7 +87,7 @@ void SparsityPattern::update()
         nFacesPerCell,
         KOKKOS_LAMBDA(const size_t celli) {
             size_t nFaces = nFacesPerCellSpan[static_cast<size_t>(celli)];
-            diagOffsetSpan[celli] = static_cast<uint8_t>(nFaces);
+            diagOffsetSpan[celli] = static_cast<localIdx>(nFaces);
             sColIdx[rowPtrs[celli] + nFaces] = celli;
             return nFaces + 1;
         }
@@ -104,7 +104,7 @@ void SparsityPattern::update()
             // return the oldValues
             // hit on performance on serial
             size_t segIdxOwn = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[owner], 1);
-            ownerOffsetSpan[facei] = uint8_t(segIdxOwn);
+            ownerOffsetSpan[facei] = static_cast<localIdx>(segIdxOwn);
 
             size_t startSegOwn = rowPtrs[owner];
             // owner --> current cell
@@ -115,10 +115,10 @@ void SparsityPattern::update()
 }
 
 
-const NeoFOAM::Field<uint8_t>& SparsityPattern::ownerOffset() const { return ownerOffset_; }
+const NeoFOAM::Field<localIdx>& SparsityPattern::ownerOffset() const { return ownerOffset_; }
 
-const NeoFOAM::Field<uint8_t>& SparsityPattern::neighbourOffset() const { return neighbourOffset_; }
+const NeoFOAM::Field<localIdx>& SparsityPattern::neighbourOffset() const { return neighbourOffset_; }
 
-const NeoFOAM::Field<uint8_t>& SparsityPattern::diagOffset() const { return diagOffset_; }
+const NeoFOAM::Field<localIdx>& SparsityPattern::diagOffset() const { return diagOffset_; }
 
 } // namespace NeoFOAM::finiteVolume::cellCentred
-- 
2.43.0


From 04b1cbe2f1eacb09429ff30bb192bfd08ae4709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 21/60] fix: evaluate the divergence of vector fields
 explicitly

---
 .../finiteVolume/cellCentred/operators/divOperator.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index b0c0711..33330a4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -114,7 +114,7 @@ public:
         VolumeField<ValueType>& phi,
         std::unique_ptr<DivOperatorFactory<ValueType>> divOperatorStrategy
     )
-        : dsl::OperatorMixin<VolumeField<scalar>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
+        : dsl::OperatorMixin<VolumeField<ValueType>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
           faceFlux_(faceFlux), divOperatorStrategy_(std::move(divOperatorStrategy)) {};
 
     DivOperator(
@@ -126,10 +126,10 @@ public:
           faceFlux_(faceFlux), divOperatorStrategy_(nullptr) {};
 
 
-    void explicitOperation(Field<scalar>& source) const
+    void explicitOperation(Field<ValueType>& source) const
     {
         NF_ASSERT(divOperatorStrategy_, "DivOperatorStrategy not initialized");
-        NeoFOAM::Field<NeoFOAM::scalar> tmpsource(source.exec(), source.size(), 0.0);
+        NeoFOAM::Field<ValueType> tmpsource(source.exec(), source.size(), zero<ValueType>());
         const auto operatorScaling = this->getCoefficient();
         divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
         source += tmpsource;
-- 
2.43.0


From a58f96a4783c239a7fc0bbafbc7e71a8e283a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 22/60] fix: evaluate the Laplacian of vector fields into a
 volume field

---
 .../finiteVolume/cellCentred/operators/laplacianOperator.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
index 297f881..7686f9d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
@@ -147,7 +147,7 @@ public:
     //     laplacianOperatorStrategy_->laplacian(ls, gamma_, getField());
     // };
 
-    void laplacian(VolumeField<scalar>& lapPhi)
+    void laplacian(VolumeField<ValueType>& lapPhi)
     {
         const auto operatorScaling = this->getCoefficient();
         laplacianOperatorStrategy_->laplacian(lapPhi, gamma_, this->getField(), operatorScaling);
-- 
2.43.0


From 7a7082e6964ebfa5511b93b2acb53da93a083d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 23/60] fix: the divergence does not depend on the previous
 content of its result

---
 src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..adb4ad3 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -111,6 +111,7 @@ void computeDivExp(
     // TODO: currently we just copy the boundary values over
     phif.boundaryField().value() = phi.boundaryField().value();
 
+    fill(divPhi, zero<ValueType>());
     size_t nInternalFaces = mesh.nInternalFaces();
     size_t nBoundaryFaces = mesh.nBoundaryFaces();
     computeDiv<ValueType>(
-- 
2.43.0


From df82e1f425d1f4b12571deda03a3c5a4ef401d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 24/60] fix: the gradient does not depend on the previous
 content of its result

---
 src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
index 9f0c586..d1a4661 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
@@ -12,7 +12,7 @@ namespace NeoFOAM::finiteVolume::cellCentred
 ** ie computes \sum_f \phi_f
 **
 ** @param[in] in - Field on which the gradient should be computed
-** @param[in,out] out - Field to hold the result
+** @param[out] out - Field to hold the result
 */
 void computeGrad(
     const VolumeField<scalar>& in,
@@ -27,6 +27,7 @@ void computeGrad(
     );
     surfInterp.interpolate(in, phif);
 
+    fill(out.internalField(), zero<Vector>());
     auto surfGradPhi = out.internalField().view();
 
     const auto [surfFaceCells, sBSf, surfPhif, surfOwner, surfNeighbour, faceAreaS, surfV] = spans(
-- 
2.43.0


From 7ec03e7a37bbc03034afe0c9eaa57b1ffb668a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 25/60] fix: the Laplacian does not depend on the previous
 content of its result

---
 src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..18c58ce 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,6 +32,7 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
+    fill(lapPhi, zero<ValueType>());
     const auto [result, faceArea, fnGrad, vol] =
         spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
 
-- 
2.43.0


From 7caf3dfbc2c9a04cffc87b3f07e1f059cba3c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 26/60] fix: the explicit Laplacian uses the diffusivity

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 18c58ce..ca4ea70 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -33,8 +33,13 @@ void computeLaplacianExp(
     );
 
     fill(lapPhi, zero<ValueType>());
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -44,7 +49,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -55,7 +60,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From dc6a1a1ed1d5828cbb50522b1fd61ed687dfd0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 27/60] fix: source terms take part in expressions

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..6e7bbd0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,8 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0


From e51ff4dcc2b465c3ae444c406ebdbb5f74d34fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 28/60] fix: the implicit divergence uses the selected
 interpolation scheme

---
 .../cellCentred/operators/gaussGreenDiv.hpp   |  5 +++-
 .../cellCentred/operators/gaussGreenDiv.cpp   | 29 ++++++++++---------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
index 26756c4..a0e77c2 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
@@ -27,6 +27,7 @@ void computeDivImp(
     la::LinearSystem<ValueType, localIdx>& ls,
     const SurfaceField<scalar>& faceFlux,
     const VolumeField<ValueType>& phi,
+    const SurfaceInterpolation<ValueType>& surfInterp,
     const dsl::Coeff operatorScaling,
     const SparsityPattern& sparsityPattern
 );
@@ -66,7 +67,9 @@ public:
         const VolumeField<ValueType>& phi,
         const dsl::Coeff operatorScaling) const override
     {
-        computeDivImp(ls, faceFlux, phi, operatorScaling, *sparsityPattern_.get());
+        computeDivImp(
+            ls, faceFlux, phi, surfaceInterpolation_, operatorScaling, *sparsityPattern_.get()
+        );
     };
 
     virtual void
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index adb4ad3..401e5fc 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -148,6 +148,7 @@ void computeDivImp(
     la::LinearSystem<ValueType, localIdx>& ls,
     const SurfaceField<scalar>& faceFlux,
     const VolumeField<ValueType>& phi,
+    const SurfaceInterpolation<ValueType>& surfInterp,
     const dsl::Coeff operatorScaling,
     const SparsityPattern& sparsityPattern
 )
@@ -155,16 +156,19 @@ void computeDivImp(
     const UnstructuredMesh& mesh = phi.mesh();
     const std::size_t nInternalFaces = mesh.nInternalFaces();
     const auto exec = phi.exec();
-
-    const auto [sFaceFlux, owner, neighbour, surfFaceCells, diagOffs, ownOffs, neiOffs] = spans(
-        faceFlux.internalField(),
-        mesh.faceOwner(),
-        mesh.faceNeighbour(),
-        mesh.boundaryMesh().faceCells(),
-        sparsityPattern.diagOffset(),
-        sparsityPattern.ownerOffset(),
-        sparsityPattern.neighbourOffset()
-    );
+    const auto weights = surfInterp.weight(faceFlux, phi);
+
+    const auto [sFaceFlux, sWeights, owner, neighbour, surfFaceCells, diagOffs, ownOffs, neiOffs] =
+        spans(
+            faceFlux.internalField(),
+            weights.internalField(),
+            mesh.faceOwner(),
+            mesh.faceNeighbour(),
+            mesh.boundaryMesh().faceCells(),
+            sparsityPattern.diagOffset(),
+            sparsityPattern.ownerOffset(),
+            sparsityPattern.neighbourOffset()
+        );
     auto [matrix, rhs] = ls.view();
 
     parallelFor(
@@ -172,8 +176,7 @@ void computeDivImp(
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t facei) {
             scalar flux = sFaceFlux[facei];
-            // scalar weight = 0.5;
-            scalar weight = flux >= 0 ? 1 : 0;
+            scalar weight = sWeights[facei];
             ValueType value = zero<ValueType>();
             std::size_t own = static_cast<std::size_t>(owner[facei]);
             std::size_t nei = static_cast<std::size_t>(neighbour[facei]);
@@ -231,7 +234,7 @@ void computeDivImp(
 
 #define NF_DECLARE_COMPUTE_IMP_DIV(TYPENAME)                                                       \
     template void computeDivImp<                                                                   \
-        TYPENAME>(la::LinearSystem<TYPENAME, localIdx>&, const SurfaceField<scalar>&, const VolumeField<TYPENAME>&, const dsl::Coeff, const SparsityPattern&)
+        TYPENAME>(la::LinearSystem<TYPENAME, localIdx>&, const SurfaceField<scalar>&, const VolumeField<TYPENAME>&, const SurfaceInterpolation<TYPENAME>&, const dsl::Coeff, const SparsityPattern&)
 
 NF_DECLARE_COMPUTE_IMP_DIV(scalar);
 NF_DECLARE_COMPUTE_IMP_DIV(Vector);
-- 
2.43.0


From 3febbe32ea423d8dbe4c3fa9a678b491deef88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 29/60] fix: the implicit divergence accounts for prescribed
 boundary gradients

---
 .../cellCentred/operators/gaussGreenDiv.cpp        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 401e5fc..45e8a39 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -205,11 +205,11 @@ void computeDivImp(
         }
     );
 
-    auto [refGradient, value, valueFraction, refValue] = spans(
+    const auto [refGradient, valueFraction, refValue, deltaCoeffs] = spans(
         phi.boundaryField().refGrad(),
-        phi.boundaryField().value(),
         phi.boundaryField().valueFraction(),
-        phi.boundaryField().refValue()
+        phi.boundaryField().refValue(),
+        mesh.boundaryMesh().deltaCoeffs()
     );
 
     parallelFor(
@@ -225,9 +225,11 @@ void computeDivImp(
 
             matrix.values[rowOwnStart + diagOffs[own]] +=
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+            rhs[own] -=
+                (flux * operatorScalingOwn
+                 * (valueFraction[bcfacei] * refValue[bcfacei]
+                    + (1.0 - valueFraction[bcfacei]) * (1 / deltaCoeffs[bcfacei])
+                          * refGradient[bcfacei]));
         }
     );
 };
-- 
2.43.0


From 74b84664530ab64a17020bdb99ac7f1cb9b05c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 30/60] fix: the explicit time derivative is scaled like the
 implicit one

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..3651da4 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            const auto commonCoef = operatorScaling[celli] * vol[celli] * dtInver;
+            sourceSpan[celli] += commonCoef * (field[celli] - oldField[celli]);
         }
     );
 }
-- 
2.43.0


From e9c865b50c42b0ba079e7541a10f70dca1877f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 31/60] fix: an expression can be added to itself

---
 include/NeoFOAM/dsl/expression.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/expression.hpp b/include/NeoFOAM/dsl/expression.hpp
index b654e1b..0f78302 100644
--- a/include/NeoFOAM/dsl/expression.hpp
+++ b/include/NeoFOAM/dsl/expression.hpp
@@ -109,13 +109,16 @@ public:
 
     void addExpression(const Expression& equation)
     {
-        for (auto& oper : equation.temporalOperators_)
+        // NOTE equation might be this expression, the number of terms is thus fixed beforehand
+        const auto nTemporal = equation.temporalOperators_.size();
+        for (size_t i = 0; i < nTemporal; i++)
         {
-            temporalOperators_.push_back(oper);
+            temporalOperators_.push_back(equation.temporalOperators_[i]);
         }
-        for (auto& oper : equation.spatialOperators_)
+        const auto nSpatial = equation.spatialOperators_.size();
+        for (size_t i = 0; i < nSpatial; i++)
         {
-            spatialOperators_.push_back(oper);
+            spatialOperators_.push_back(equation.spatialOperators_[i]);
         }
     }
 
-- 
2.43.0


From 251511c8fb976fa21595f6de6878c44839a8c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 32/60] fix: implicit time integration accounts for explicit
 terms

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..77c9736 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -68,6 +68,16 @@ public:
         auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        auto [vol, expSource, rhs] =
+            spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+
+        // subtract the explicit source term from the rhs
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
 
-- 
2.43.0


From 8aefa121e76e8793083d0471b4ce0c184b7347be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 33/60] fix: implicit time integration corrects the boundary
 conditions of the solution

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index 77c9736..b136a43 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -51,8 +51,6 @@ public:
         auto source = eqn.explicitOperation(solutionField.size());
         SolutionFieldType& oldSolutionField = finiteVolume::cellCentred::oldTime(solutionField);
 
-        // solutionField.internalField() = oldSolutionField.internalField() - source * dt;
-        // solutionField.correctBoundaryConditions();
         // solve sparse matrix system
         using ValueType = typename SolutionFieldType::ElementType;
 
@@ -80,6 +78,7 @@ public:
 
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
+        solutionField.correctBoundaryConditions();
 
         // check if executor is GPU
         if (std::holds_alternative<NeoFOAM::GPUExecutor>(eqn.exec()))
-- 
2.43.0


From f7148193793eae774de8806e35faf7c9831613fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 34/60] fix: time integration receives the solution settings of
 the caller

---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..3ff3267 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From e2ed80711fa1fffca8ffeda5d0a9a5f8ba5b202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 35/60] fix: linear systems can be converted to other value and
 index types

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp    |  2 +-
 include/NeoFOAM/linearAlgebra/linearSystem.hpp | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..f629c7b 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -229,7 +229,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(
         colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
diff --git a/include/NeoFOAM/linearAlgebra/linearSystem.hpp b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
index b53c550..6981ba3 100644
--- a/include/NeoFOAM/linearAlgebra/linearSystem.hpp
+++ b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
@@ -133,11 +133,14 @@ LinearSystem<ValueTypeOut, IndexTypeOut>
 convertLinearSystem(const LinearSystem<ValueTypeIn, IndexTypeIn>& ls)
 {
     auto exec = ls.exec();
-    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().data(), ls.rhs().size());
+    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().size());
+    const auto rhs = ls.rhs().view();
+    parallelFor(
+        convertedRhs, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(rhs[i]); }
+    );
     return {
-        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view.matrix),
-        convertedRhs,
-        ls.sparsityPattern()
+        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view().matrix),
+        convertedRhs
     };
 }
 
-- 
2.43.0


From 3e5456c79918058f2ba12212068c13571063d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 36/60] fix: matrix entries are found whatever the order of
 columns in a row

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f629c7b..f708e3b 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -55,7 +55,6 @@ struct CSRMatrixView
             {
                 return values[localCol];
             }
-            if (colIdxs[localCol] > j) break;
         }
         Kokkos::abort("Memory not allocated for CSR matrix component.");
         return values[values.size()]; // compiler warning suppression.
-- 
2.43.0


From d7305972136160dd297912e84aee88a6a153ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 37/60] fix: a matrix is copied to the executor asked for

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f708e3b..863edbd 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -179,7 +179,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From 2b67377a89f36b0c6d1cf580267d8ad05f09dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 38/60] fix: implicit divergence adds boundary contributions
 atomically

---
 .../cellCentred/operators/gaussGreenDiv.cpp         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 45e8a39..320db98 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -223,13 +223,18 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
-                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            rhs[own] -=
+            // several boundary faces may belong to the same cell
+            Kokkos::atomic_add(
+                &matrix.values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
                 (flux * operatorScalingOwn
                  * (valueFraction[bcfacei] * refValue[bcfacei]
                     + (1.0 - valueFraction[bcfacei]) * (1 / deltaCoeffs[bcfacei])
-                          * refGradient[bcfacei]));
+                          * refGradient[bcfacei]))
+            );
         }
     );
 };
-- 
2.43.0


From 63c223a771ea4994a9f0f6d2072954ed2c6e0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 39/60] fix: implicit Laplacian adds boundary contributions
 atomically

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index ca4ea70..cf68ea9 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -169,13 +169,18 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
+            // several boundary faces may belong to the same cell
+            Kokkos::atomic_sub(
+                &values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * valueFraction[bcfacei] * deltaCoeffs[facei]
+                    * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
                 (flux * operatorScalingOwn
                  * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]))
+            );
         }
     );
 }
-- 
2.43.0


From d5579ed37c7d41134e80f7ce17ab268f911c5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 40/60] fix: steady solves assemble into the pattern of the
 operators

---
 include/NeoFOAM/dsl/solver.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index 3ff3267..2a1aaba 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -63,11 +63,14 @@ void solve(
         // solve sparse matrix system
         using ValueType = typename FieldType::ElementType;
 
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solution.mesh());
+        // the pattern the operators assemble with: two patterns of a mesh may order their rows
+        // differently
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solution.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         exp.implicitOperation(ls);
         auto expTmp = exp.explicitOperation(solution.mesh().nCells());
-- 
2.43.0


From 583a68d7cfbf3e785dd5067e4df3cdaf59443cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 41/60] fix: implicit steps assemble into the pattern of the
 operators

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b136a43..61d53c6 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -55,11 +55,14 @@ public:
         using ValueType = typename SolutionFieldType::ElementType;
 
         // TODO decouple from fvcc specific implementation
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solutionField.mesh());
+        // the pattern the operators assemble with: two patterns of a mesh may order their rows
+        // differently
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solutionField.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         eqn.implicitOperation(ls);
 
-- 
2.43.0


From d76f421cd7bffd67e89492475f2d6c433ffdaf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 42/60] fix: the message layer is finalised once only

---
 include/NeoFOAM/core/mpi/environment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NeoFOAM/core/mpi/environment.hpp b/include/NeoFOAM/core/mpi/environment.hpp
index b3754e8..33a6c8a 100644
--- a/include/NeoFOAM/core/mpi/environment.hpp
+++ b/include/NeoFOAM/core/mpi/environment.hpp
@@ -43,6 +43,10 @@ struct MPIInit
 #endif
     }
 
+    // the message layer is finalised once
+    MPIInit(const MPIInit&) = delete;
+    MPIInit& operator=(const MPIInit&) = delete;
+
     /**
      * @brief Destroy the MPIInit object.
      */
-- 
2.43.0


From f2f8b86d71a966664eb867f489c8e7d7ca6d0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 43/60] fix: halo exchange accesses field entries

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..ca620a1 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,13 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        const auto hostField = field.copyToHost();
+        const auto values = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = values[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,12 +134,15 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto hostField = field.copyToHost();
+        auto values = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                values[static_cast<size_t>(receiveMap_[rank][data].local_idx)] = rankBuffer[data];
         }
+        field = hostField.copyToExecutor(field.exec());
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
     }
-- 
2.43.0


From f389559e6292f5c6410e678266938a97bd3db0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:02 +0000
Subject: [PATCH 44/60] fix: communication buffers keep their addresses

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index ca620a1..7dad486 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -152,7 +153,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers, at addresses that stay valid. */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From 6c3998229e4292ea5ec9e111ad21359e4e921eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 45/60] fix: a copied Runge-Kutta integrator sets up its own
 solver

---
 src/timeIntegration/rungeKutta.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..f556a86 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -7,18 +7,9 @@ namespace NeoFOAM::timeIntegration
 {
 
 template<typename SolutionFieldType>
-RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
+RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other) : Base(other)
 {
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
+    // the copy sets up sundials of its own in its first step
 }
 
 template<typename SolutionFieldType>
-- 
2.43.0


From a439024149f1855efc4ccb45cf70d7d4d950bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 46/60] fix: copied integrator vectors refer to themselves

---
 include/NeoFOAM/timeIntegration/sundials.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/sundials.hpp b/include/NeoFOAM/timeIntegration/sundials.hpp
index 5d8ba05..46ac305 100644
--- a/include/NeoFOAM/timeIntegration/sundials.hpp
+++ b/include/NeoFOAM/timeIntegration/sundials.hpp
@@ -269,7 +269,7 @@ public:
     SKVectorSerial() {};
     ~SKVectorSerial() = default;
     SKVectorSerial(const SKVectorSerial& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorSerial(SKVectorSerial&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorSerial& operator=(const SKVectorSerial& other) = delete;
@@ -306,7 +306,7 @@ public:
     SKVectorHostDefault() = default;
     ~SKVectorHostDefault() = default;
     SKVectorHostDefault(const SKVectorHostDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorHostDefault(SKVectorHostDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorHostDefault& operator=(const SKVectorHostDefault& other) = delete;
@@ -341,7 +341,7 @@ public:
     SKVectorDefault() = default;
     ~SKVectorDefault() = default;
     SKVectorDefault(const SKVectorDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorDefault(SKVectorDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorDefault& operator=(const SKVectorDefault& other) = delete;
-- 
2.43.0


From be9360ffb5e18221bd3df433b054a5e9062e0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 47/60] fix: every Runge-Kutta step starts from the caller's
 equation, solution and time

---
 src/timeIntegration/rungeKutta.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index f556a86..a409583 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -27,7 +27,8 @@ void RungeKutta<SolutionFieldType>::solve(
     // Setup sundials if required, load the current solution for temporal integration
     SolutionFieldType& oldSolutionField =
         NeoFOAM::finiteVolume::cellCentred::oldTime(solutionField);
-    if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);
+    // sundials keeps an equation, state and time of its own: they start from the caller's
+    initSUNERKSolver(exp, oldSolutionField, t);
     NeoFOAM::sundials::fieldToSunNVector(oldSolutionField.internalField(), solution_.sunNVector());
     void* ark = reinterpret_cast<void*>(ODEMemory_.get());
 
-- 
2.43.0


From 842221d624a71feddbdf60cb5e6267fb17da5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 48/60] fix: Runge-Kutta steps correct the boundary values

---
 src/timeIntegration/rungeKutta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index a409583..cf486e3 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -43,6 +43,7 @@ void RungeKutta<SolutionFieldType>::solve(
 
     // Copy solution out. (Fence is in sundails free)
     NeoFOAM::sundials::sunNVectorToField(solution_.sunNVector(), solutionField.internalField());
+    solutionField.correctBoundaryConditions();
     oldSolutionField.internalField() = solutionField.internalField();
 }
 
-- 
2.43.0


From 4526a344faa378ea9811b13446aa8d1bc1d7abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 49/60] fix: PETSc solves the system, not its transpose

MatSetPreallocationCOO takes the row indices first.
---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 52960c7..f1a0f7f 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -135,7 +135,7 @@ public:
         VecDuplicate(rhs_, &sol_);
 
         VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx);
+        MatSetPreallocationCOO(Amat_, size, rowIdx, colIdx);
 
         KSPCreate(PETSC_COMM_WORLD, &ksp_);
         KSPSetFromOptions(ksp_);
-- 
2.43.0


From 8780dab4d16d5f77b2b7ce59663e06e8f2662c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 50/60] fix: a PETSc solver can be copied

---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d5d748a..0a844b3 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -70,8 +70,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<petscSolver>(*this);
     }
 
 
-- 
2.43.0


From 914975b0d735b09bf169b855a02a54ed6afeffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 51/60] fix: the indices of a PETSc system are not kept on the
 stack

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index f1a0f7f..83ced71 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -12,6 +12,8 @@
 #include <petscmat.h>
 #include <petscksp.h>
 
+#include <vector>
+
 #include "NeoFOAM/fields/field.hpp"
 #include "NeoFOAM/core/dictionary.hpp"
 #include "NeoFOAM/linearAlgebra/linearSystem.hpp"
@@ -70,9 +72,9 @@ public:
     {
         std::size_t size = sys.matrix().values().size();
         std::size_t nrows = sys.rhs().size();
-        PetscInt colIdx[size];
-        PetscInt rowIdx[size];
-        PetscInt rhsIdx[nrows];
+        std::vector<PetscInt> colIdx(size);
+        std::vector<PetscInt> rowIdx(size);
+        std::vector<PetscInt> rhsIdx(nrows);
 
         // colIdx = sys.matrix().colIdxs().data();
 
@@ -134,8 +136,8 @@ public:
         }
         VecDuplicate(rhs_, &sol_);
 
-        VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, rowIdx, colIdx);
+        VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data());
+        MatSetPreallocationCOO(Amat_, size, rowIdx.data(), colIdx.data());
 
         KSPCreate(PETSC_COMM_WORLD, &ksp_);
         KSPSetFromOptions(ksp_);
-- 
2.43.0


From 38c3a4fa888fa1b8a9bf5fb86f370f7436e28ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 52/60] fix: the PETSc solution array is host memory

VecGetArray gives access from the host whatever the type of the vector.
---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index 0a844b3..7547f3d 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -113,7 +113,7 @@ public:
         PetscScalar* x_help = static_cast<PetscScalar*>(x.data());
         VecGetArray(sol, &x_help);
 
-        NeoFOAM::Field<NeoFOAM::scalar> x2(x.exec(), static_cast<scalar*>(x_help), nrows, x.exec());
+        NeoFOAM::Field<NeoFOAM::scalar> x2(x.exec(), static_cast<scalar*>(x_help), nrows);
         x = x2;
     }
 };
-- 
2.43.0


From e9afb3ea1f4ef9dc06fbe1463a79bf2a5f3de1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 53/60] fix: a Ginkgo solver can be copied

---
 include/NeoFOAM/linearAlgebra/ginkgo.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/ginkgo.hpp b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
index 7b2f279..dcf2ff8 100644
--- a/include/NeoFOAM/linearAlgebra/ginkgo.hpp
+++ b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
@@ -64,8 +64,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<GinkgoSolver>(*this);
     }
 
 private:
-- 
2.43.0


From aed2172667b5e9a1b3e2ffa8efb217594ef36426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 54/60] fix: a copied mesh does not share stencils which refer
 to its source

---
 .../NeoFOAM/mesh/unstructured/unstructuredMesh.hpp   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp b/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
index 354d813..6d3a2dd 100644
--- a/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
+++ b/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
@@ -268,9 +268,15 @@ private:
     /**
      * @brief Stencil data base.
      *
-     * The stencil data base is used to register stencils.
-     */
-    mutable StencilDataBase stencilDataBase_;
+     * The stencil data base is used to register stencils. These refer to the mesh they were
+     * created for, hence a copied mesh starts with an empty stencil data base.
+     */
+    struct MeshStencils : public StencilDataBase
+    {
+        MeshStencils() = default;
+        MeshStencils(const MeshStencils&) : StencilDataBase() {}
+    };
+    mutable MeshStencils stencilDataBase_;
 };
 
 /** @brief creates a mesh containing only a single cell
-- 
2.43.0


From 0ba16f131e31f41beb829a5630c83fce2cf5aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 55/60] fix: interpolation weights of meshes with micrometre
 cells

---
 include/NeoFOAM/core/primitives/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/core/primitives/scalar.hpp b/include/NeoFOAM/core/primitives/scalar.hpp
index 87a2540..3a437ed 100644
--- a/include/NeoFOAM/core/primitives/scalar.hpp
+++ b/include/NeoFOAM/core/primitives/scalar.hpp
@@ -10,11 +10,11 @@ namespace NeoFOAM
 {
 #ifdef NEOFOAM_DP_SCALAR
 typedef double scalar;
+constexpr scalar ROOTVSMALL = 1e-150;
 #else
 typedef float scalar;
-#endif
-
 constexpr scalar ROOTVSMALL = 1e-18;
+#endif
 
 KOKKOS_INLINE_FUNCTION
 scalar mag(const scalar& s) { return std::abs(s); }
-- 
2.43.0


From 81752664341e320cd7130496d7c78d766c86a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:16 +0000
Subject: [PATCH 56/60] fix: a steady solve leaves boundary values consistent
 with the solution

---
 include/NeoFOAM/dsl/solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index 2a1aaba..5c61721 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -86,6 +86,7 @@ void solve(
 
         auto solver = NeoFOAM::la::Solver(solution.exec(), fvSolution);
         solver.solve(ls, solution.internalField());
+        solution.correctBoundaryConditions();
     }
 }
 
-- 
2.43.0


From 07479566afe5bdd9ebc33bb3b3b4a0269e758d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:17 +0000
Subject: [PATCH 57/60] fix: assigning a dictionary one of its own
 sub-dictionaries read freed memory

---
 include/NeoFOAM/core/dictionary.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/NeoFOAM/core/dictionary.hpp b/include/NeoFOAM/core/dictionary.hpp
index 05c48aa..5f79ebb 100644
--- a/include/NeoFOAM/core/dictionary.hpp
+++ b/include/NeoFOAM/core/dictionary.hpp
@@ -35,6 +35,20 @@ public:
 
     Dictionary() = default;
 
+    Dictionary(const Dictionary&) = default;
+
+    Dictionary(Dictionary&&) = default;
+
+    /**
+     * @brief Assigns the content of another dictionary, which may be a part of this one.
+     * @param other A copy of the dictionary to assign.
+     */
+    Dictionary& operator=(Dictionary other)
+    {
+        data_.swap(other.data_);
+        return *this;
+    }
+
     Dictionary(const std::unordered_map<std::string, std::any>& keyValuePairs);
 
     Dictionary(const std::initializer_list<std::pair<std::string, std::any>>& initList);
-- 
2.43.0


From ed04c40bed9bc3d86ed8fcfaa3cea471f28890a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:47 +0000
Subject: [PATCH 58/60] fix: assigning a token list one of its own tokens read
 freed memory

---
 include/NeoFOAM/core/tokenList.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/NeoFOAM/core/tokenList.hpp b/include/NeoFOAM/core/tokenList.hpp
index b9ba798..d7eb85a 100644
--- a/include/NeoFOAM/core/tokenList.hpp
+++ b/include/NeoFOAM/core/tokenList.hpp
@@ -31,6 +31,17 @@ public:
 
     TokenList(const TokenList&);
 
+    /**
+     * @brief Assigns another token list, which may be a token of this one.
+     * @param other A copy of the token list to assign.
+     */
+    TokenList& operator=(TokenList other)
+    {
+        data_.swap(other.data_);
+        nextIndex_ = other.nextIndex_;
+        return *this;
+    }
+
     /**
      * @brief Construct a TokenList object from a vector of std::any.
      * @param data A vector of std::any.
-- 
2.43.0


From de5f6cd53b54d34579f6daa6cfa7d0a395221126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:45 +0000
Subject: [PATCH 59/60] fix: Dictionary::insert stores the value as it was
 before the call, or nothing

The entry was created before the value was copied: a value whose copy fails left an
empty entry under its key, and an enclosing dictionary stored under a new key got that
empty entry as an additional one.
---
 src/core/dictionary.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/dictionary.cpp b/src/core/dictionary.cpp
index 9ab0124..8eacabb 100644
--- a/src/core/dictionary.cpp
+++ b/src/core/dictionary.cpp
@@ -40,7 +40,11 @@ Dictionary::Dictionary(const std::initializer_list<std::pair<std::string, std::a
     }
 }
 
-void Dictionary::insert(const std::string& key, const std::any& value) { data_[key] = value; }
+void Dictionary::insert(const std::string& key, const std::any& value)
+{
+    // the value may be an entry this dictionary is a part of, and its copy may fail: copy it first
+    data_.insert_or_assign(key, value);
+}
 
 void Dictionary::remove(const std::string& key) { data_.erase(key); }
 
-- 
2.43.0


From efe40c6923cff420523c3e9a94b78a8ae42510a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:54 +0000
Subject: [PATCH 60/60] fix: destroying selected objects writes the shared
 registration flag only when it changes

The destructor wrote it every time, so that objects of one class could not be destroyed by two threads at once.
---
 include/NeoFOAM/core/runtimeSelectionFactory.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/runtimeSelectionFactory.hpp b/include/NeoFOAM/core/runtimeSelectionFactory.hpp
index efcbf20..4de8a3a 100644
--- a/include/NeoFOAM/core/runtimeSelectionFactory.hpp
+++ b/include/NeoFOAM/core/runtimeSelectionFactory.hpp
@@ -334,7 +334,8 @@ public:
             {
                 const auto& tbl = RuntimeSelectionFactory::table();
                 const auto it = tbl.find(derivedClass::name());
-                REGISTERED = (it != tbl.end());
+                // shared by all objects: only write when it changes
+                if (it == tbl.end()) REGISTERED = false;
             }
         }
 
-- 
2.43.0

