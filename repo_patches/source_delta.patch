From c7153be5a49a53d790ae67279844ab2f7d209461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 01/10] fix: EntityView::subview overflows with the default
 count

start_index + offset + SIZE_MAX wraps around, so subview(offset) threw unless
start_index + offset was 0. Clamp the count to what remains instead.
---
 inc/Tecs_entity_view.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..6fd5e90 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -162,7 +162,12 @@ namespace Tecs {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+#ifndef TECS_UNCHECKED_MODE
+            if (offset > size()) {
+                throw std::runtime_error("EntityView::subview offset out of range: " + std::to_string(offset));
+            }
+#endif
+            return EntityView(*storage, start_index + offset, start_index + offset + std::min(count, size() - offset));
         }
 
     private:
-- 
2.43.0


From 1de61e44463ff68183e9b0cbe9267b0011482326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 02/10] fix: EntityView reverse iteration skips the first
 entity

rend() wraps the position after the last visited element, which is begin().
---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 6fd5e90..b48d4ea 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From def5d2c728432b19ec4325280fd8e504b5321207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 03/10] fix: EntityView::operator[] of a subview indexes the
 whole list

view[0] of a subview that does not start at 0 threw (or read another element in
unchecked mode); the index is relative to the view.
---
 inc/Tecs_entity_view.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index b48d4ea..7472899 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -143,11 +143,11 @@ namespace Tecs {
 
         inline reference operator[](size_type index) const {
 #ifndef TECS_UNCHECKED_MODE
-            if (index < start_index || index >= end_index) {
+            if (index >= size()) {
                 throw std::runtime_error("EntityView index out of range: " + std::to_string(index));
             }
 #endif
-            return (*storage)[index];
+            return (*storage)[start_index + index];
         }
 
         inline size_type size() const noexcept {
-- 
2.43.0


From 5f9541084410b9b67c928c843f13d2feb155af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 04/10] fix: Unset of several components through an entity list
 entry

Removing the first component clears the list entry the call was made on, so the
remaining components were removed from entity index 0 instead.
---
 inc/Tecs_entity.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..2d77bde 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,11 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index before removing components so we can complete the removal.
+            size_t copy = index;
+
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From 1bd0c279dbb23e973ca24fdeec6423c5cf3060d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 05/10] fix: const Get of a missing global component must not
 create it

Lock::Get<const T>() with AddRemove permission marked the component as present
without marking it as written, so the commit published a present component
without any storage behind it. Behave like Entity::Get and throw.
---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From eecf1346cc5303c2a70581ff80717a930edee5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 06/10] fix: entity lists must be committed together with the
 metadata

EntitiesWith<T>() and PreviousEntitiesWith<T>() need no permission on T, only the
metadata read lock. The list of T was swapped after the metadata was unlocked,
so a new transaction could see a list that disagrees with Has<T>(), or race with
the swap.
---
 inc/Tecs_transaction.hh | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..0f6f7d1 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -247,6 +247,16 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
+                        // Entity lists can be read by any transaction, so they must be swapped before the metadata is
+                        // unlocked.
+                        ( // For each AllComponentTypes
+                            [&] {
+                                if (this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) {
+                                    auto &storage = this->instance.template Storage<AllComponentTypes>();
+                                    storage.readValidEntities.swap(storage.writeValidEntities);
+                                }
+                            }(),
+                            ...);
                         this->instance.metadata.CommitUnlock();
                     }
                 }
@@ -258,11 +268,6 @@ namespace Tecs {
                             auto &storage = this->instance.template Storage<AllComponentTypes>();
 
                             storage.readComponents.swap(storage.writeComponents);
-                            if constexpr (is_add_remove_allowed<LockType>()) {
-                                if (this->writeAccessedFlags[0]) {
-                                    storage.readValidEntities.swap(storage.writeValidEntities);
-                                }
-                            }
                             storage.CommitUnlock();
                         }
                     }(),
-- 
2.43.0


From f4a6a2700953be38b7ca97632d1149e58e657392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 07/10] fix: header-only mode does not compile

ecsId is used unconditionally by NewEntity, GetInstanceId and commits, but was not
declared with TECS_HEADER_ONLY. Without the library it stays 0.
---
 inc/Tecs.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 1a027c7..6312cc4 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -182,9 +182,7 @@ namespace Tecs {
         TraceInfo transactionTrace;
 #endif
 
-#ifndef TECS_HEADER_ONLY
-        size_t ecsId;
-#endif
+        size_t ecsId = 0;
 
         template<typename, typename...>
         friend class Lock;
-- 
2.43.0


From be27b1422af01833e6003ee1157ec986fa1a4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 08/10] fix: StopTrace waits for events that other threads are
 still writing

---
 inc/Tecs_tracing.hh | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/inc/Tecs_tracing.hh b/inc/Tecs_tracing.hh
index b9cd2f5..7d6450f 100644
--- a/inc/Tecs_tracing.hh
+++ b/inc/Tecs_tracing.hh
@@ -142,17 +142,23 @@ namespace Tecs {
 
     class TraceInfo {
     public:
-        TraceInfo() : traceEnabled(false), nextEventIndex(0), events(TECS_PERFORMANCE_TRACING_MAX_EVENTS) {}
+        TraceInfo()
+            : traceEnabled(false), pendingEvents(0), nextEventIndex(0), events(TECS_PERFORMANCE_TRACING_MAX_EVENTS) {}
 
         inline void Trace(TraceEvent::Type eventType) {
             if (traceEnabled) {
-                auto index = nextEventIndex++;
-                if (index < events.size()) {
-                    auto &event = events[index];
-                    event.time = std::chrono::steady_clock::now();
-                    event.thread = std::this_thread::get_id();
-                    event.type = eventType;
+                pendingEvents++;
+                // Check again now that StopTrace() will wait for this event
+                if (traceEnabled) {
+                    auto index = nextEventIndex++;
+                    if (index < events.size()) {
+                        auto &event = events[index];
+                        event.time = std::chrono::steady_clock::now();
+                        event.thread = std::this_thread::get_id();
+                        event.type = eventType;
+                    }
                 }
+                pendingEvents--;
             }
         }
 
@@ -165,11 +171,16 @@ namespace Tecs {
         inline nonstd::span<TraceEvent> StopTrace() {
             if (!traceEnabled) throw std::runtime_error("No trace has been started");
             traceEnabled = false;
+            // Other threads may still be in the middle of writing an event
+            while (pendingEvents > 0) {
+                std::this_thread::yield();
+            }
             return nonstd::span<TraceEvent>(events.data(), std::min(events.size(), (size_t)nextEventIndex.load()));
         }
 
     private:
         std::atomic_bool traceEnabled;
+        std::atomic_uint32_t pendingEvents;
         std::atomic_uint32_t nextEventIndex;
         std::vector<TraceEvent> events;
     };
-- 
2.43.0


From 8e2b324e1c101c08cf68117affb4642483f4d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 09/10] fix: TryLock compiles with 64 or more component types

---
 inc/Tecs_lock.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index d2d31f6..8a98ed4 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -468,8 +468,8 @@ namespace Tecs {
             if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
-                static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-                static constexpr auto requestedWrite = generateWriteBitset<DynamicLockType>();
+                static const auto requestedRead = generateReadBitset<DynamicLockType>();
+                static const auto requestedWrite = generateWriteBitset<DynamicLockType>();
                 if ((requestedRead & readPermissions) == requestedRead &&
                     (requestedWrite & this->permissions) == requestedWrite) {
                     return DynamicLockType(this->instance, this->base, this->permissions);
-- 
2.43.0


From 3e97717f8e477f57d32c137b0371fd151bfede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 10/10] fix: a DynamicLock<WriteAll> without AddRemove could be
 upgraded to AddRemove

---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0

