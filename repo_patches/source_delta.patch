From cc6d4f7b50e74a6f1299355c68d5de706d55658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:41 +0000
Subject: [PATCH 1/4] fix: let exceptions of the callable passed to transform()
 propagate

ConstructPayloadFromFunction() was noexcept if the payload is nothrow constructible
from the result of the callable, ignoring that the callable itself may throw. The
exception then called std::terminate(). Also restore the empty flag in this case.
---
 include/tiny/optional.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..a2cae18 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1092,7 +1093,9 @@ namespace impl
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
       // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From 1e9eeaade540b8678e9c1d0f33fe3d118f28fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:41 +0000
Subject: [PATCH 2/4] fix: invalidate the empty flag when an empty optional is
 destroyed

The object created by FlagManipulator::init_empty_flag() was never destroyed if the
optional was still (or again) empty in its destructor, or if constructing the payload
threw in the in_place constructor. The readme documents that the destructor calls
invalidate_empty_flag() in this case.
---
 include/tiny/optional.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index a2cae18..8c78c43 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Delegating ensures that the
+      // destructor cleans up the flag if constructing the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // See the in_place constructor.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +981,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the flag that was created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From f5c7046da7a4850c5c742eea833a0a96df8f4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 3/4] fix: make free swap() of tiny::optional use the
 optional's own swap

std::swap() was the better match for tiny::optional than the overload taking
TinyOptionalImpl. So a payload whose move throws could get lost, and the
noexcept specification did not follow the payload's.
---
 include/tiny/optional.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 8c78c43..541d000 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2284,6 +2284,24 @@ template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
 
 
+// The overload of swap() for TinyOptionalImpl is not sufficient: For a tiny::optional, std::swap() would be the better
+// match, which is implemented in terms of moves of the whole optional and thus loses the payload if one of them throws.
+// clang-format off
+template <
+    class PayloadType,
+    auto sentinelOrMemPtr,
+    auto irrelevantOrSentinel,
+    std::enable_if_t<std::is_move_constructible_v<PayloadType> && std::is_swappable_v<PayloadType>, int> = 0>
+void swap(
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & lhs,
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & rhs) 
+  noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+// clang-format on
+
+
 template <class PayloadType, auto sentinelOrMemPtr = UseDefaultValue, auto irrelevantOrSentinel = UseDefaultValue>
 [[nodiscard]] optional<std::decay_t<PayloadType>, sentinelOrMemPtr, irrelevantOrSentinel> make_optional(
     PayloadType && v)
-- 
2.43.0


From d733b2654f04d8f373c62da4db829f3257aafd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 4/4] fix: sentinel_flag_manipulator constructs the sentinel at
 the payload's real address

With a payload that overloads the unary operator&, init_empty_flag() constructed
the sentinel at whatever address that operator returned.
---
 include/tiny/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 541d000..f662ed2 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -237,7 +237,7 @@ struct sentinel_flag_manipulator
 
   static void init_empty_flag(PayloadType & uninitializedPayloadMemory) noexcept
   {
-    ::new (&uninitializedPayloadMemory) PayloadType(SentinelValue);
+    ::new (std::addressof(uninitializedPayloadMemory)) PayloadType(SentinelValue);
   }
 
   static void invalidate_empty_flag(PayloadType & emptyPayload) noexcept
-- 
2.43.0

