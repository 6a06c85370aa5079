From 87560d72b2c36033665c3f644734ef78f2109895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:27 +0000
Subject: [PATCH 01/42] fix: release retained shared memory before re-creating
 it on re-offer

A skeleton that stop-offers while proxies still use its shared memory keeps its references to it. If the last proxy
disconnected before the next OfferService(), PrepareOffer() decided to re-create the memory and
RemoveStaleSharedMemoryArtefacts() terminated the process, because the memory to remove was still owned.
---
 .../com/impl/bindings/lola/skeleton_memory_manager.cpp   | 9 ++++++++-
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.h  | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index dabb70b..9e01212 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -357,8 +357,15 @@ void SkeletonMemoryManager::RemoveSharedMemory()
     control_asil_resource_.reset();
 }
 
-void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts() const
+void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
 {
+    // If the service was stop-offered while proxies were still using the shared memory, we kept our references to it. As
+    // no proxy uses it anymore, it is stale and has to be released before its artefacts can be removed.
+    Reset();
+    storage_resource_.reset();
+    control_qm_resource_.reset();
+    control_asil_resource_.reset();
+
     const auto control_qm_path =
         GetControlChannelShmPath(lola_service_instance_deployment_, QualityType::kASIL_QM, shm_path_builder_);
     const auto control_asil_b_path =
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
index 3a596f0..431f434 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
@@ -148,7 +148,7 @@ class SkeletonMemoryManager final
 
     /// \brief Removes stale shared memory artefacts from the filesystem in case a process crashed while creating a
     ///        SharedMemoryResource.
-    void RemoveStaleSharedMemoryArtefacts() const;
+    void RemoveStaleSharedMemoryArtefacts();
 
     /// \brief Cleans up all allocated slots for this SkeletonEvent of any previous running instance
     /// \details Note: Only invoke _after_ a crash was detected!
-- 
2.43.0


From 1818f315b61e25895556c40c3a5d5b5aca1b6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 02/42] fix: do not report a flag file as created when it was
 deleted within the same batch of inotify events

---
 .../client/service_discovery_client.cpp         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
index d94884c..b7a08e2 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
@@ -23,6 +23,7 @@
 #include <score/expected.hpp>
 #include <score/utility.hpp>
 
+#include <algorithm>
 #include <cstdint>
 #include <exception>
 #include <mutex>
@@ -43,6 +44,16 @@ auto ReadMaskSet(const os::InotifyEvent& event, const os::InotifyEvent::ReadMask
     return static_cast<underlying_type_readmask>(event.GetMask() & mask) != 0U;
 }
 
+void DropCreationEventsFor(const os::InotifyEvent& deletion_event, std::vector<os::InotifyEvent>& creation_events)
+{
+    const auto concerns_same_file = [&deletion_event](const os::InotifyEvent& creation_event) {
+        return (creation_event.GetWatchDescriptor() == deletion_event.GetWatchDescriptor()) &&
+               (creation_event.GetName() == deletion_event.GetName());
+    };
+    score::cpp::ignore = creation_events.erase(
+        std::remove_if(creation_events.begin(), creation_events.end(), concerns_same_file), creation_events.end());
+}
+
 std::vector<HandleType> GetKnownHandles(EnrichedInstanceIdentifier enriched_instance_identifier,
                                         QualityAwareContainer<KnownInstancesContainer> known_instances)
 {
@@ -413,6 +424,12 @@ auto ServiceDiscoveryClient::HandleEvents(
 
         if (inode_was_removed)
         {
+            if (flag_file_was_removed)
+            {
+                // Deletions are handled before creations. A flag file which was created and deleted again within the
+                // same batch of events must not be reported as created afterwards.
+                DropCreationEventsFor(event, creation_events);
+            }
             deletion_events.push_back(event);
         }
         else if (inode_was_created)
-- 
2.43.0


From 88cc37b57f8d9b6a7b2c3942450b4b3ba3fe8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 03/42] fix: disconnect the QM control section instead of
 aborting the ASIL-B provider when both sections differ

---
 .../lola/event_data_control_composite.cpp         | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
index 4b7a671..c8c379d 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
@@ -82,12 +82,15 @@ auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() con
             const auto time_stamp = slot_b.GetTimeStamp();
             if (time_stamp < oldest_time_stamp)
             {
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    static_cast<EventSlotStatus::value_type>(slot_qm) ==
-                        static_cast<EventSlotStatus::value_type>(slot_b),
-                    "Defensive progamming: QM and ASIL-B control slots are expected to be in the same state. Assert "
-                    "this to ensure that returning the qm slot value to be used also for the asil-b slot value is "
-                    "correct. We already check if the qm value is incorrect (hinting at a memory corruption) above.");
+                // The returned value is used for both control sections, so both have to agree. They differ if the QM
+                // control section has been corrupted, or if a re-offered instance re-uses control sections of which
+                // the QM one had been disconnected before. Neither must take down the ASIL-B provider: exit early with
+                // an empty optional, thus the caller will disconnect the QM control section.
+                if (static_cast<EventSlotStatus::value_type>(slot_qm) !=
+                    static_cast<EventSlotStatus::value_type>(slot_b))
+                {
+                    return {};
+                }
                 slot_info = {slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)};
                 oldest_time_stamp = time_stamp;
             }
-- 
2.43.0


From aed7c05cfb7b50a90f7e4a54dcdab6abf0497968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:17 +0000
Subject: [PATCH 04/42] fix: keep the event timestamp increasing over a
 re-offer of the same skeleton

---
 score/mw/com/impl/bindings/lola/skeleton_event_common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_common.h b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
index a13b701..5ee13cb 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_common.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
@@ -35,6 +35,7 @@
 #include <score/assert.hpp>
 #include <score/utility.hpp>
 
+#include <algorithm>
 #include <atomic>
 #include <optional>
 #include <tuple>
@@ -441,7 +442,9 @@ void SkeletonEventCommon<SampleType>::UpdateCurrentTimestamp()
 {
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(event_data_control_composite_.has_value(),
                                                 "EventDataControlComposite must be initialized.");
-    current_timestamp_ = event_data_control_composite_.value().GetLatestTimestamp();
+    // The slot of the newest sample may have been discarded in the meantime. Consumers, which already received it, ignore
+    // any sample which isn't newer, so never fall back behind the last timestamp this instance handed out.
+    current_timestamp_ = std::max(current_timestamp_, event_data_control_composite_.value().GetLatestTimestamp());
 }
 
 template <typename SampleType>
-- 
2.43.0


From f6c477da25068da546953e7234e8c5cc5c15bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:07 +0000
Subject: [PATCH 05/42] fix: unregister method call handlers of subscriptions
 that were still running when the offer is stopped

---
 score/mw/com/impl/bindings/lola/skeleton.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 4c3457e..72a9ece 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -456,16 +456,20 @@ auto Skeleton::PrepareStopOffer(std::optional<UnregisterShmObjectTraceCallback>
     method_subscription_registration_guard_asil_b_.reset();
     method_unsubscription_registration_guard_qm_.reset();
     method_unsubscription_registration_guard_asil_b_.reset();
-    for (auto& skeleton_method : skeleton_methods_)
-    {
-        skeleton_method.second.get().UnregisterMethodCallHandlers();
-    }
 
     // Clean up method resources
     // Expiring the method subscribed handler scope will wait until any current subscription calls are finished and
     // will block any new subscription calls once it returns.
     on_service_method_subscribed_handler_scope_.Expire();
 
+    // A subscription call, which was still running until now, may have registered further MethodCallHandlers. Therefore,
+    // they can only be unregistered after the scope above has been expired. Otherwise, they would be left over and the
+    // subscription of the same proxy after a re-offer would find them still registered.
+    for (auto& skeleton_method : skeleton_methods_)
+    {
+        skeleton_method.second.get().UnregisterMethodCallHandlers();
+    }
+
     // Expiring the method call handler scope will wait until all current method calls are finished and will block
     // any new handlers from being called once it returns.
     method_call_handler_scope_.Expire();
-- 
2.43.0


From ba1dbc7f289721211ccaed9a986df5e21422e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 06/42] fix: order service instance deployments consistently

Deployments were compared by ASIL level when their bindings were equal and by the order of the bindings otherwise. The
bindings are ordered by instance id only, so that deployments of one instance which differ elsewhere compared by
neither, although both compared to a third one by ASIL level: not a strict weak ordering.
---
 .../configuration/service_instance_deployment.cpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/configuration/service_instance_deployment.cpp b/score/mw/com/impl/configuration/service_instance_deployment.cpp
index 23c82be..8be0b40 100644
--- a/score/mw/com/impl/configuration/service_instance_deployment.cpp
+++ b/score/mw/com/impl/configuration/service_instance_deployment.cpp
@@ -74,11 +74,17 @@ auto operator==(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeplo
 
 auto operator<(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeployment& rhs) -> bool
 {
-    if (lhs.bindingInfo_ == rhs.bindingInfo_)
+    // The bindings are compared by their order only: their equality looks at more than their order does, so that
+    // mixing both would not give a strict weak ordering.
+    if (lhs.bindingInfo_ < rhs.bindingInfo_)
     {
-        return lhs.asilLevel_ < rhs.asilLevel_;
+        return true;
     }
-    return lhs.bindingInfo_ < rhs.bindingInfo_;
+    if (rhs.bindingInfo_ < lhs.bindingInfo_)
+    {
+        return false;
+    }
+    return lhs.asilLevel_ < rhs.asilLevel_;
 }
 
 auto areCompatible(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeployment& rhs) -> bool
-- 
2.43.0


From bf2c8a7d2a4237de4deda6097e5cc3ed43158d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:26 +0000
Subject: [PATCH 07/42] fix: compare shared memory vectors of different sizes
 without reading past the shorter one

---
 score/memory/shared/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/vector.h b/score/memory/shared/vector.h
index f12d2df..bf37e27 100644
--- a/score/memory/shared/vector.h
+++ b/score/memory/shared/vector.h
@@ -33,7 +33,7 @@ template <typename T>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const Vector<T>& lhs, std::vector<T> rhs) noexcept
 {
-    return (std::equal(lhs.begin(), lhs.end(), rhs.begin()) == true);
+    return (std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()) == true);
 }
 
 template <typename T>
@@ -45,7 +45,7 @@ template <typename T>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(std::vector<T> lhs, const Vector<T>& rhs) noexcept
 {
-    return (std::equal(lhs.begin(), lhs.end(), rhs.begin()) == true);
+    return (std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()) == true);
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From c40b48433f959ea542a2a3cd29ad0cdc6cb5d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:26 +0000
Subject: [PATCH 08/42] fix: forget a resource whose region the registry
 refuses

---
 score/memory/shared/memory_resource_registry.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/memory_resource_registry.cpp b/score/memory/shared/memory_resource_registry.cpp
index bd1824b..35b8669 100644
--- a/score/memory/shared/memory_resource_registry.cpp
+++ b/score/memory/shared/memory_resource_registry.cpp
@@ -78,7 +78,11 @@ auto score::memory::shared::MemoryResourceRegistry::insert_resource(
         const auto memory_range_start_as_integer = CastPointerToInteger(memory_range_start);
         const auto memory_range_end_as_integer = CastPointerToInteger(memory_range_end);
 
-        return region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer);
+        if (!region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer))
+        {
+            score::cpp::ignore = this->registry_.erase(result.first);
+            return false;
+        }
     }
     return result.second;
 }
-- 
2.43.0


From a98044dbd8bc940893600f4bcd33523d4142617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:26 +0000
Subject: [PATCH 09/42] fix: keep the memory bounds of offset pointers that are
 swapped

---
 score/memory/shared/offset_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index cd30d87..7eda0f0 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -1093,9 +1093,9 @@ template <typename T>
 // coverity[autosar_cpp14_m3_2_3_violation : FALSE] See rationale for autosar_cpp14_m3_2_3_violation above
 void swap(OffsetPtr<T>& left, OffsetPtr<T>& right) noexcept
 {
-    auto* const right_ptr = OffsetPtr<T>::GetPointerWithoutBoundsCheck(&right, right.offset_);
+    const OffsetPtr<T> previous_right{right};
     right = left;
-    left = right_ptr;
+    left = previous_right;
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 16eb87eca2b4a632477089823609b94f4971d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:08 +0000
Subject: [PATCH 10/42] fix: let null offset pointers be read wherever they lie
 in a memory region

---
 score/memory/shared/offset_ptr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index 7eda0f0..7985ff1 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -553,6 +553,12 @@ auto OffsetPtr<PointedType>::GetPointerWithBoundsCheck(
     const MemoryRegionBounds& offset_ptr_memory_bounds_when_not_in_shm,
     const std::size_t pointed_type_size) -> pointer
 {
+    // A nullptr refers to no memory which could be checked.
+    if (offset == detail_offset_ptr::kNullPtrRepresentation)
+    {
+        return nullptr;
+    }
+
     if (detail_offset_ptr::IsBoundsCheckingEnabled())
     {
         const auto offset_ptr_bounds = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(offset_ptr_address);
-- 
2.43.0


From 2896d1fabf9201d4a94f15ce449ff0d06b9e3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:25 +0000
Subject: [PATCH 11/42] fix: do not leak a lock file whose access rights cannot
 be set

---
 score/memory/shared/lock_file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..d9f554d 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -45,6 +45,9 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << create_result.error().ToString();
         return {};
     }
+    // From here on, the file is closed and removed again, if we cannot hand it out.
+    constexpr bool owns_file{true};
+    LockFile lock_file{path, create_result.value(), owns_file};
     auto result = score::os::Stat::instance().chmod(path.data(), kReadAccessForAll);
     if (!result.has_value())
     {
@@ -52,8 +55,7 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << result.error().ToString();
         return {};
     }
-    constexpr bool owns_file{true};
-    return LockFile{std::move(path), create_result.value(), owns_file};
+    return lock_file;
 }
 
 std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_ownership) noexcept
@@ -76,6 +78,7 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
     {
         score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        score::cpp::ignore = ::score::os::Unistd::instance().close(create_result.value());
         return {};
     }
     return LockFile{std::move(path), create_result.value(), take_ownership};
-- 
2.43.0


From be7d9b87ec164753bc5ffe71f496508b83365d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:25 +0000
Subject: [PATCH 12/42] fix: let CreateOrOpen create shared memory when another
 process only tried to open it

---
 .../memory/shared/shared_memory_resource.cpp  | 71 +++++++++----------
 score/memory/shared/shared_memory_resource.h  |  2 +-
 2 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..c62bf0a 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -360,7 +360,7 @@ score::cpp::expected<std::shared_ptr<SharedMemoryResource>, score::os::Error> Sh
     std::shared_ptr<score::memory::shared::TypedMemory> typed_memory_ptr)
 {
     auto resource = CreateInstance(std::move(input_path), std::move(acl_factory), typed_memory_ptr);
-    const auto result = resource->CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
+    const auto result = resource->CreateImpl(user_space_to_reserve, initialize_callback, permissions);
     if (!result.has_value())
     {
         score::mw::log::LogError("shm") << "Unexpected error while creating Shared Memory Resource with errno"
@@ -381,7 +381,7 @@ score::cpp::expected<std::shared_ptr<SharedMemoryResource>, score::os::Error> Sh
     std::shared_ptr<score::memory::shared::TypedMemory> typed_memory_ptr)
 {
     auto resource = CreateInstance(shared_memory_resource_id, std::move(acl_factory), typed_memory_ptr);
-    const auto result = resource->CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
+    const auto result = resource->CreateImpl(user_space_to_reserve, initialize_callback, permissions);
     // LCOV_EXCL_START (Defensive programming: CreateAnonymous either returns a valid result or terminates.)
     // LCOV_EXCL_BR_START (See line coverage suppression explanation)
     if (!result.has_value())
@@ -497,7 +497,7 @@ SharedMemoryResource::SharedMemoryResource(std::variant<std::string, std::uint64
 // std::terminate call.
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 score::cpp::expected_blank<Error> SharedMemoryResource::CreateImpl(const std::size_t user_space_to_reserve,
-                                                                   const InitializeCallback initialize_callback,
+                                                                   const InitializeCallback& initialize_callback,
                                                                    const UserPermissions& permissions)
 {
     this->opening_mode_ = Fcntl::Open::kReadWrite;
@@ -559,44 +559,43 @@ score::cpp::expected_blank<Error> SharedMemoryResource::CreateOrOpenImpl(const s
     this->opening_mode_ = Fcntl::Open::kReadWrite;
     this->map_mode_ = ::score::os::Mman::Protection::kRead | ::score::os::Mman::Protection::kWrite;
     constexpr bool open_read_write{true};
-    const auto open_result = OpenImpl(open_read_write);
-    if (!open_result.has_value())
+    auto open_result = OpenImpl(open_read_write);
+    if ((!open_result.has_value()) && (open_result.error() != Error::Code::kNoSuchFileOrDirectory))
     {
-        if (open_result.error() == Error::Code::kNoSuchFileOrDirectory)
-        {
-            score::mw::log::LogDebug("shm")
-                << "Could not open shared-memory resource with path" << *path << "with errno" << open_result.error()
-                << "Attempting to create it now instead.";
-
-            const auto creation_result = CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
-            // If the shared memory segment could not be created because another process has created it or has acquired
-            // the lock to create it, wait for the other process to create it.
-            if (!creation_result.has_value())
-            {
-                // Create() should terminate for any other error
-                std::stringstream s{};
-                s << "Creating shared memory region failed with errno:" << creation_result.error();
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    ((creation_result.error() == Error::Code::kDeviceOrResourceBusy) ||
-                     (creation_result.error() == Error::Code::kObjectExists)),
-                    s.str().c_str());
-
-                score::mw::log::LogDebug("shm")
-                    << "Could not create shared-memory region with errno:" << creation_result.error()
-                    << "Another process is creating or has already created it. Attempting to open.";
+        score::mw::log::LogFatal("shm") << __func__ << __LINE__ << "Unexpected error while opening Shared Memory Resource"
+                                        << *path << "with errno" << open_result.error();
+        std::terminate();
+    }
+    while ((!open_result.has_value()) && (open_result.error() == Error::Code::kNoSuchFileOrDirectory))
+    {
+        score::mw::log::LogDebug("shm") << "Could not open shared-memory resource with path" << *path << "with errno"
+                                        << open_result.error() << "Attempting to create it now instead.";
 
-                return OpenImpl(open_read_write);
-            }
-        }
-        else
+        const auto creation_result = CreateImpl(user_space_to_reserve, initialize_callback, permissions);
+        if (creation_result.has_value())
         {
-            score::mw::log::LogFatal("shm")
-                << __func__ << __LINE__ << "Unexpected error while opening Shared Memory Resource" << *path
-                << "with errno" << open_result.error();
-            std::terminate();
+            return {};
         }
+
+        // If the shared memory segment could not be created because another process has created it or has acquired
+        // the lock to create it, wait for the other process to create it. The other process may also hold the lock just
+        // because it tries to open the shared memory segment. In this case, there is still nothing to open and we have
+        // to try to create it again.
+        // Create() should terminate for any other error
+        std::stringstream s{};
+        s << "Creating shared memory region failed with errno:" << creation_result.error();
+        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
+            ((creation_result.error() == Error::Code::kDeviceOrResourceBusy) ||
+             (creation_result.error() == Error::Code::kObjectExists)),
+            s.str().c_str());
+
+        score::mw::log::LogDebug("shm") << "Could not create shared-memory region with errno:"
+                                        << creation_result.error()
+                                        << "Another process is creating or has already created it. Attempting to open.";
+
+        open_result = OpenImpl(open_read_write);
     }
-    return {};
+    return open_result;
 }
 
 score::cpp::expected_blank<Error> SharedMemoryResource::OpenImpl(const bool is_read_write)
diff --git a/score/memory/shared/shared_memory_resource.h b/score/memory/shared/shared_memory_resource.h
index 5f0a79f..11f0623 100644
--- a/score/memory/shared/shared_memory_resource.h
+++ b/score/memory/shared/shared_memory_resource.h
@@ -342,7 +342,7 @@ class SharedMemoryResource : public ISharedMemoryResource, public std::enable_sh
     /// \return in case of error an score::os::Error is returned.
     // coverity[autosar_cpp14_m7_3_1_violation] false-positive: class method (Ticket-234468)
     score::cpp::expected_blank<score::os::Error> CreateImpl(const std::size_t user_space_to_reserve,
-                                                            const InitializeCallback initialize_callback,
+                                                            const InitializeCallback& initialize_callback,
                                                             const UserPermissions& permissions);
 
     /// \brief Called by SharedMemoryResource::CreateOrOpen() after calling the constructor.
-- 
2.43.0


From 183a17d966314b19072f2fe746344f6cb8574d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 13/42] fix: a stopped client connection does not become ready
 any more

Stop() between the start of a connection and its attempt to connect (from the
state callback of kStarting or from another thread) let the connection go from
kStopping to kReady, or come back to life after kStopped.
---
 score/message_passing/client_connection.cpp | 49 +++++++++++++++++----
 score/message_passing/client_connection.h   |  1 +
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..5caf7b0 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -347,6 +347,12 @@ void ClientConnection::DoRestart() noexcept
 
 void ClientConnection::TryConnect() noexcept
 {
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() was called before this attempt to connect; its disconnection command ends the connection (or has done so)
+        return;
+    }
+
     // The order of access to these atomics is important, as stop_reason_ can change in background
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(((stop_reason_ == StopReason::kNone) && (state_ == State::kStarting)) ||
                                         ((state_ == State::kStopping) && (stop_reason_ == StopReason::kUserRequested)));
@@ -431,22 +437,49 @@ void ClientConnection::TryConnect() noexcept
     posix_endpoint_.disconnect = [this]() noexcept {
         SwitchToStopState();
     };
+
+    // Stop() may have been called while we were connecting; a stopping connection shall not become ready any more
+    State expected_state = State::kStarting;
+    if (!state_.compare_exchange_strong(expected_state, State::kReady))
+    {
+        engine_->CloseClientConnection(client_fd_);
+        client_fd_ = -1;
+        return;
+    }
+
     if (IsInCallback())
     {
         engine_->RegisterPosixEndpoint(posix_endpoint_);
+        ProcessReadyCallback();
     }
     else
     {
-        engine_->EnqueueCommand(
-            connection_timer_,
-            ISharedResourceEngine::TimePoint{},
-            [this](auto) noexcept {
-                engine_->RegisterPosixEndpoint(posix_endpoint_);
-            },
-            this);
+        // the events of the connection shall only be processed after the return from the callback
+        ProcessReadyCallback();
+        if (stop_reason_ == StopReason::kNone)
+        {
+            engine_->EnqueueCommand(
+                connection_timer_,
+                ISharedResourceEngine::TimePoint{},
+                [this](auto) noexcept {
+                    if (stop_reason_ == StopReason::kNone)
+                    {
+                        engine_->RegisterPosixEndpoint(posix_endpoint_);
+                    }
+                },
+                this);
+        }
     }
+}
 
-    ProcessStateChange(State::kReady);
+void ClientConnection::ProcessReadyCallback() noexcept
+{
+    LogInfo(engine_->GetLogger(), "ProcessStateChange ", score::cpp::to_underlying(State::kReady));
+
+    if (!callback_context_->state_callback.empty())
+    {
+        callback_context_->state_callback(State::kReady);
+    }
 }
 
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..1111066 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -74,6 +74,7 @@ class ClientConnection final : public IClientConnection
 
     void ProcessStateChangeToStopped() noexcept;
     void ProcessStateChange(const State state) noexcept;
+    void ProcessReadyCallback() noexcept;
     void SwitchToStopState() noexcept;
 
     bool IsInCallback() const noexcept
-- 
2.43.0


From 1a2793c6f97372b2d4c0053660eb1449aaee41c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 14/42] fix: an unexpected reply stops the client connection
 instead of aborting the process

A reply that arrived while the send queue was armed, but no request was
waiting, was passed to an empty callback.
---
 score/message_passing/client_connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 5caf7b0..94f3db1 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -506,7 +506,8 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
         case score::cpp::to_underlying(ServerToClient::REPLY):
         {
             std::unique_lock<std::mutex> lock{send_mutex_};
-            if (waiting_for_reply_.has_value())
+            // an empty callback only marks the send queue as busy, no request is waiting for this reply then
+            if (waiting_for_reply_.has_value() && !waiting_for_reply_->empty())
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
-- 
2.43.0


From e78f3cd4acfaa97700b4cfd1fb1638f9d540e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:27 +0000
Subject: [PATCH 15/42] fix: return the queued messages of a stopped client
 connection to its pool

Every message that was still queued when the connection stopped took its
queue entry away for good, so that a restarted connection ran out of entries.
---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 94f3db1..47ea7ef 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -632,8 +632,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        SendCommand& send = send_queue_.front();
+        auto callback = std::move(send.callback);
         send_queue_.pop_front();
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From ae88f432bf9a9675366d7a4fa71aca4f8664aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 16/42] fix: Stop() from the state callback of a starting
 client connection ends the start

The start went on after the return from the callback and left a command in the
engine's queue that the next Restart() put into the queue a second time.
---
 score/message_passing/client_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 47ea7ef..645d39f 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -325,6 +325,11 @@ void ClientConnection::DoRestart() noexcept
 {
     stop_reason_ = StopReason::kNone;
     ProcessStateChange(State::kStarting);
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() was called from the state callback; there is nothing to start any more
+        return;
+    }
 
     LogInfo(engine_->GetLogger(), "ClientConnection::DoRestart ", engine_->IsOnCallbackThread(), " ", identifier_);
 
-- 
2.43.0


From fd3d5cea73b178ba9b2ca782068b74a6062f39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:21 +0000
Subject: [PATCH 17/42] fix: a failed SendWaitReply does not return before its
 callback is done

When the connection ended while the request could not be sent, the callback
thread had already taken the callback, which refers to the stack frame of the
call, and ran it after the return. The failed call also released or re-armed
the queue of others then.
---
 score/message_passing/client_connection.cpp | 13 +++++++++++++
 score/message_passing/client_connection.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 645d39f..21fdb94 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -58,6 +58,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_pool_{},
       send_queue_{},
       waiting_for_reply_{},
+      direct_waiter_{nullptr},
       connection_timer_{},
       disconnection_command_{},
       async_send_command_{},
@@ -204,12 +205,22 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        direct_waiter_ = &future;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
         if (!expected.has_value())
         {
+            if (direct_waiter_ != &future)
+            {
+                // The callback has already been taken by the callback thread, because the connection is closing. As it
+                // refers to this call's stack frame, we may only return after it has been called.
+                lock.unlock();
+                future.Wait();
+                return score::cpp::make_unexpected(expected.error());
+            }
+            direct_waiter_ = nullptr;
             if (send_queue_.empty())
             {
                 // no one managed to get into queue while we were blocking it
@@ -516,6 +527,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                direct_waiter_ = nullptr;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -628,6 +640,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        direct_waiter_ = nullptr;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 1111066..7828514 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -133,6 +133,7 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    const void* direct_waiter_;  // the SendWaitReply call, if any, whose callback is in waiting_for_reply_ and may fail yet
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From 3b7c4b751d0df6877f2456bb6fbab17ca911115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 18/42] fix: messages sent while a client connection stops do
 not arm its send queue any more

A sender that still saw the Ready state could put its command into the engine's
queue after the connection had cleaned up; after a restart the same command was
put into the queue a second time.
---
 score/message_passing/client_connection.cpp | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 21fdb94..bccc1d1 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -121,6 +121,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
     }
     std::lock_guard<std::mutex> guard{send_mutex_};
+    if (state_ != State::kReady)
+    {
+        // the connection began to stop before we got the lock
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (!waiting_for_reply_.has_value())
     {
         if (client_config_.truly_async)
@@ -187,6 +192,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     };
 
     std::unique_lock<std::mutex> lock(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // the connection began to stop before we got the lock
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         // TODO: avoid copying the message
@@ -221,9 +231,9 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
                 return score::cpp::make_unexpected(expected.error());
             }
             direct_waiter_ = nullptr;
-            if (send_queue_.empty())
+            if (send_queue_.empty() || (state_ != State::kReady))
             {
-                // no one managed to get into queue while we were blocking it
+                // no one managed to get into queue while we were blocking it, or the queue is about to be cancelled
                 waiting_for_reply_.reset();
             }
             else
@@ -253,6 +263,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
     std::lock_guard<std::mutex> guard(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // the connection began to stop before we got the lock
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         if (!TryQueueMessage(message, std::move(callback)))
@@ -629,6 +644,10 @@ void ClientConnection::SwitchToStopState() noexcept
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(stop_reason_ != StopReason::kNone);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback());
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
+    {
+        // from now on, no sender that still saw the Ready state can arm the send queue any more
+        std::lock_guard<std::mutex> guard{send_mutex_};
+    }
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
     {
-- 
2.43.0


From cc80da0e5f5b5564cc6e1150d265da6dc485134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 19/42] fix: a callback that stops and restarts the connection
 keeps the new connection's send queue

---
 score/message_passing/client_connection.cpp | 8 ++++++++
 score/message_passing/client_connection.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index bccc1d1..915a535 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -59,6 +59,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_queue_{},
       waiting_for_reply_{},
       direct_waiter_{nullptr},
+      stop_count_{0U},
       connection_timer_{},
       disconnection_command_{},
       async_send_command_{},
@@ -617,9 +618,15 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             // We are not releasing waiting_for_reply_ yet. This makes our life easier if the callback and/or some
             // competing thread wants to queue another message - they will just add it to the send_queue_ and we will
             // process it in the next iteration.
+            const auto stop_count = stop_count_;
             lock.unlock();
             callback(score::cpp::make_unexpected(expected.error()));
             lock.lock();
+            if (stop_count != stop_count_)
+            {
+                // the callback has stopped (and maybe restarted) the connection; the queue is not ours any more
+                return;
+            }
             waiting_for_reply_.reset();
         }
         else
@@ -655,6 +662,7 @@ void ClientConnection::SwitchToStopState() noexcept
         client_fd_ = -1;
     }
     std::unique_lock<std::mutex> lock{send_mutex_};
+    ++stop_count_;
     if (waiting_for_reply_)
     {
         auto callback = std::move(*waiting_for_reply_);
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 7828514..33e4ddf 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -134,6 +134,7 @@ class ClientConnection final : public IClientConnection
 
     std::optional<ReplyCallback> waiting_for_reply_;
     const void* direct_waiter_;  // the SendWaitReply call, if any, whose callback is in waiting_for_reply_ and may fail yet
+    std::uint32_t stop_count_;
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From b21d3d005dae6ecd7c67709a56d2dba69f5817e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 20/42] fix: do not truncate the sizes of messages of 64 KiB
 and of receive buffers of that size

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..f56e6ce 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -192,6 +193,11 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     std::uint8_t code,
     const score::cpp::span<const std::uint8_t> message) noexcept
 {
+    if (message.size() > std::numeric_limits<std::uint16_t>::max())
+    {
+        // the protocol has 16 bits for the size
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
@@ -251,7 +257,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    if (static_cast<std::size_t>(size) > posix_receive_buffer_.size())
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From e8c921b450996d2dda23da9bef6e50bc9c1aa799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 21/42] fix: do not take the torn header of a disconnected peer
 for a message

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index f56e6ce..90b9aae 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -253,6 +253,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
     }
+    if (static_cast<std::size_t>(size_expected.value()) != (sizeof(code) + sizeof(size)))
+    {
+        // other side disconnected within the header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
+    }
     if (size == 0)
     {
         return {};
-- 
2.43.0


From eed11c8de6d17bee07dbbe080beb064f6b31cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 22/42] fix: do not wait without a timeout for a command that
 became due in the meantime

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 90b9aae..9b5bfc7 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -363,6 +363,11 @@ std::int32_t UnixDomainEngine::ProcessTimerQueue() noexcept
     {
         return INT32_MAX;
     }
+    if (distance_ms < 0)
+    {
+        // already due by now; a negative timeout would wait for the next event
+        return 0;
+    }
     // At this point distance_ms < INT32_MAX, so adding 1 cannot overflow.
     return static_cast<std::int32_t>(distance_ms + 1);
 }
-- 
2.43.0


From 1355c5ed0a17e2c753eda5635d8640f72cde598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 23/42] fix: do not terminate the server when a connection
 cannot be accepted

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..c8daa99 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,12 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto data_fd_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!data_fd_expected.has_value())
+    {
+        return;
+    }
+    const std::int32_t data_fd = data_fd_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From 6a7ed3d38d0c9b112cad418a12654b27775285ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 24/42] fix: do not call the disconnection callback of a server
 that has none

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index c8daa99..cf0e6fb 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -141,10 +141,14 @@ UnixDomainServer::ServerConnection::~ServerConnection() noexcept
         {
             (*handler)->OnDisconnect(*this);
         }
-        else
+        else if (!server_.disconnect_callback_.empty())
         {
             server_.disconnect_callback_(*this);
         }
+        else
+        {
+            // the callback is optional
+        }
     }
     std::ignore = server_.engine_->GetOsResources().unistd->close(fd_);
 }
-- 
2.43.0


From cd6b5f7239aae6c371dde2936ed4171ef237eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 25/42] fix: do not remove the timed commands without owner
 when nullptr is cleaned up

---
 score/message_passing/timed_command_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/score/message_passing/timed_command_queue.cpp b/score/message_passing/timed_command_queue.cpp
index 999336a..4ecddd2 100644
--- a/score/message_passing/timed_command_queue.cpp
+++ b/score/message_passing/timed_command_queue.cpp
@@ -65,6 +65,10 @@ TimedCommandQueue::TimePoint TimedCommandQueue::ProcessQueue(const TimePoint now
 
 void TimedCommandQueue::CleanUpOwner(const void* const owner) noexcept
 {
+    if (owner == nullptr)
+    {
+        return;
+    }
     std::unique_lock<std::mutex> lock(mutex_);
     queue_.remove_and_dispose_if(
         [owner](auto& queue_entry) {
-- 
2.43.0


From c5d73d444cd6249559567e8aa480f2d48d4c2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:30 +0000
Subject: [PATCH 26/42] fix: let RequestDisconnect of a server connection be
 called on any thread and in its own callbacks

---
 .../unix_domain/unix_domain_server.cpp        | 24 ++++++++++++-------
 .../unix_domain/unix_domain_server.h          |  4 +++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index cf0e6fb..6614e8b 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -34,7 +34,7 @@ constexpr std::int32_t kSocketListenBacklog = 20;
 UnixDomainServer::ServerConnection::ServerConnection(UnixDomainServer& server,
                                                      std::int32_t fd,
                                                      ClientIdentity client_identity) noexcept
-    : server_{server}, user_data_{}, client_identity_{client_identity}, fd_{fd}
+    : server_{server}, user_data_{}, client_identity_{client_identity}, fd_{fd}, disconnect_requested_{false}
 {
 }
 
@@ -94,8 +94,19 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
 
 void UnixDomainServer::ServerConnection::RequestDisconnect() noexcept
 {
-    std::lock_guard<std::recursive_mutex> guard(server_.connection_setup_mutex_);
-    server_.engine_->UnregisterPosixEndpoint(endpoint_);
+    // The connection can neither be destroyed on another thread nor while it is calling its user, so leave it to the
+    // callback thread. A new connection is registered there before any command of its connection callback is processed.
+    if (disconnect_requested_.exchange(true))
+    {
+        return;
+    }
+    server_.engine_->EnqueueCommand(
+        disconnect_command_,
+        ISharedResourceEngine::TimePoint{},
+        [this](auto) noexcept {
+            server_.engine_->UnregisterPosixEndpoint(endpoint_);
+        },
+        this);
 }
 
 bool UnixDomainServer::ServerConnection::ProcessInput()
@@ -150,6 +161,7 @@ UnixDomainServer::ServerConnection::~ServerConnection() noexcept
             // the callback is optional
         }
     }
+    server_.engine_->CleanUpOwner(this);
     std::ignore = server_.engine_->GetOsResources().unistd->close(fd_);
 }
 
@@ -265,12 +277,6 @@ void UnixDomainServer::ProcessConnect() noexcept
     auto connection =
         score::cpp::pmr::make_unique<ServerConnection>(engine_->GetMemoryResource(), *this, data_fd, identity);
 
-    std::lock_guard<std::recursive_mutex> guard(connection_setup_mutex_);
-    // It should be possible to request disconnect for other connections from this callback;
-    // however, after this callback ends, it should not be possible to disconnect the new connection
-    // until it is at least placed in the UnixDomainEngine's insertion queue.
-    // UnixDomainServer::ProcessConnect() runs exclusively on the UnixDomainEngine's internal thread,
-    // so a recursive mutex shall do the job.
     auto data_expected = connect_callback_(*connection);
     if (!data_expected.has_value())
     {
diff --git a/score/message_passing/unix_domain/unix_domain_server.h b/score/message_passing/unix_domain/unix_domain_server.h
index 8f03c3f..e441d85 100644
--- a/score/message_passing/unix_domain/unix_domain_server.h
+++ b/score/message_passing/unix_domain/unix_domain_server.h
@@ -21,6 +21,7 @@
 
 #include <score/string.hpp>
 
+#include <atomic>
 #include <optional>
 
 namespace score::message_passing::detail
@@ -55,6 +56,8 @@ class UnixDomainServer final : public IServer
         std::optional<UserData> user_data_;
         ClientIdentity client_identity_;
         std::int32_t fd_;
+        std::atomic<bool> disconnect_requested_;
+        ISharedResourceEngine::CommandQueueEntry disconnect_command_;
         ISharedResourceEngine::PosixEndpointEntry endpoint_;
         score::cpp::pmr::unique_ptr<ServerConnection> self_;
     };
@@ -82,7 +85,6 @@ class UnixDomainServer final : public IServer
     const std::uint32_t max_notify_size_;
 
     std::int32_t server_fd_;
-    std::recursive_mutex connection_setup_mutex_;
 
     ConnectCallback connect_callback_;
     DisconnectCallback disconnect_callback_;
-- 
2.43.0


From 1765f285845cf4f404e92a3c6c1a9accba74d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:50 +0000
Subject: [PATCH 27/42] fix: do not abort when a SendWaitReply fails while
 other messages are queued behind it

---
 score/message_passing/client_connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 915a535..f795583 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -240,6 +240,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
             else
             {
                 // unblock the queue
+                waiting_for_reply_.reset();
                 ArmSendQueueUnderLock();
             }
             return score::cpp::make_unexpected(expected.error());
-- 
2.43.0


From 47d35107439e3092bea17ba6f185e3fa20cd9100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:26 +0000
Subject: [PATCH 28/42] fix: transfer the names of the service elements instead
 of pointers to them

---
 .../sample/messages/gateway_messages.cpp      |  4 +-
 .../sample/messages/gateway_messages.h        | 42 +++++++++++++++++--
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index 6d9dec7..9f4ab6f 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -60,7 +60,9 @@ std::size_t ProvideServiceRequest::Serialize(score::cpp::span<std::uint8_t> buff
 
 bool ProvideServiceRequest::Deserialize(score::cpp::span<const std::uint8_t> data)
 {
-    return DeserializeWithTemplate(*this, data);
+    const bool deserialized = DeserializeWithTemplate(*this, data);
+    ReferToOwnedElements();
+    return deserialized;
 }
 
 std::size_t AckResponse::Serialize(score::cpp::span<std::uint8_t> buffer) const
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..db1b1e9 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -30,17 +30,34 @@ namespace score::mw::com::gateway
 /// (generic) skeleton for the given service instance.
 class ProvideServiceRequest : public TransportMessage
 {
+    /// \brief What is transferred per service element. EventInfo only refers to its name and can therefore not be
+    /// transferred as it is.
+    struct ServiceElement
+    {
+        std::string name{};
+        score::mw::com::DataTypeMetaInfo data_type_meta_info{};
+
+        std::tuple<const std::string&, const score::mw::com::DataTypeMetaInfo&> GetSerializeMembers() const
+        {
+            return {name, data_type_meta_info};
+        }
+        std::tuple<std::string&, score::mw::com::DataTypeMetaInfo&> GetSerializeMembers()
+        {
+            return {name, data_type_meta_info};
+        }
+    };
+
     template <typename Self>
     static auto GetSerializeMembersImpl(Self& self)
     {
         using SelfNoRef = std::remove_reference_t<Self>;
         using StringType = std::conditional_t<std::is_const_v<SelfNoRef>, const std::string, std::string>;
         using VectorType = std::conditional_t<std::is_const_v<SelfNoRef>,
-                                              const std::vector<score::mw::com::EventInfo>,
-                                              std::vector<score::mw::com::EventInfo>>;
+                                              const std::vector<ServiceElement>,
+                                              std::vector<ServiceElement>>;
         using Uint32Type = std::conditional_t<std::is_const_v<SelfNoRef>, const std::uint32_t, std::uint32_t>;
         return std::tuple<StringType&, VectorType&, Uint32Type&, Uint32Type&>(
-            self.instance_specifier_, self.elements_, self.shm_control_size_, self.shm_data_size_);
+            self.instance_specifier_, self.owned_elements_, self.shm_control_size_, self.shm_data_size_);
     }
 
   public:
@@ -52,10 +69,15 @@ class ProvideServiceRequest : public TransportMessage
                           std::uint32_t shm_data_size = 0U)
         : TransportMessage(MessageType::kProvideServiceRequest),
           instance_specifier_(std::string{service_instance_specifier.ToString()}),
-          elements_(std::move(service_elements)),
           shm_control_size_(shm_control_size),
           shm_data_size_(shm_data_size)
     {
+        owned_elements_.reserve(service_elements.size());
+        for (const auto& element : service_elements)
+        {
+            owned_elements_.push_back({std::string{element.name}, element.data_type_meta_info});
+        }
+        ReferToOwnedElements();
     }
 
     std::size_t Serialize(score::cpp::span<std::uint8_t> buffer) const override;
@@ -91,7 +113,19 @@ class ProvideServiceRequest : public TransportMessage
     }
 
   private:
+    void ReferToOwnedElements()
+    {
+        elements_.clear();
+        elements_.reserve(owned_elements_.size());
+        for (const auto& element : owned_elements_)
+        {
+            elements_.push_back({element.name, element.data_type_meta_info});
+        }
+    }
+
     std::string instance_specifier_;
+    std::vector<ServiceElement> owned_elements_;
+    /// \brief Refers to the names in owned_elements_.
     std::vector<score::mw::com::EventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
-- 
2.43.0


From 6ae6a05be47ea6f2d78b7020781f34f9a4647ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 29/42] fix: do not let the gateway be ended by SIGPIPE when
 its peer has closed the connection

---
 score/mw/com/gateway/transport_layer/sample/message_framer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index b1405c9..a87ff1e 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -26,12 +26,13 @@ namespace
 using score::os::Socket;
 
 /// \brief Helper function to send the buffer's data over a socket.
+/// \details A connection that the peer has closed shall be an error here and not a SIGPIPE for the process.
 int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
 {
     auto* ptr = static_cast<const char*>(data);
     while (length > 0)
     {
-        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNone, nullptr, 0);
+        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNoSignal, nullptr, 0);
         if (!result.has_value())
         {
             return -1;
-- 
2.43.0


From fcdcb3322b5d00ac321198d2c3ed1eddf1258152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 30/42] fix: go on with a gateway message whose transfer is
 interrupted by a signal

---
 .../gateway/transport_layer/sample/message_framer.cpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index a87ff1e..394ba1c 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -17,6 +17,8 @@
 
 #include <score/span.hpp>
 
+#include <cerrno>
+
 namespace score::mw::com::gateway
 {
 
@@ -35,6 +37,10 @@ int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
         auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNoSignal, nullptr, 0);
         if (!result.has_value())
         {
+            if (result.error() == score::os::Error::createFromErrno(EINTR))
+            {
+                continue;
+            }
             return -1;
         }
         const auto sent = static_cast<std::size_t>(result.value());
@@ -56,6 +62,10 @@ ssize_t ReceiveAll(std::int32_t socket_fd, void* buffer, std::size_t length)
         auto result = Socket::instance().recv(socket_fd, ptr, length, flags);
         if (!result.has_value())
         {
+            if (result.error() == score::os::Error::createFromErrno(EINTR))
+            {
+                continue;
+            }
             ::score::mw::log::LogError() << "ReceiveAll: recv error: " << result.error().ToString()
                                          << " fd=" << socket_fd << " remaining=" << length;
             return -1;
-- 
2.43.0


From fe18c4ab5b126c7058e1c96655f4f4118e530761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:04 +0000
Subject: [PATCH 31/42] fix: do not lose the notification of pending gateway
 requests about a lost connection

---
 .../gateway/transport_layer/sample/pending_request_tracker.cpp  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp b/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
index 3f97b7e..4e67b14 100644
--- a/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
@@ -91,6 +91,8 @@ score::Result<void> PendingRequestTracker::WaitForAck(std::uint32_t sequence,
 
 void PendingRequestTracker::NotifyAll()
 {
+    // The lock keeps the notification from falling between a waiter's check of its condition and its going to sleep.
+    std::lock_guard<std::mutex> lock(pending_mutex_);
     pending_cv_.notify_all();
 }
 
-- 
2.43.0


From 3dcf17fc151f4e91c06e1f8fdda11e21cf34dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:04 +0000
Subject: [PATCH 32/42] fix: end the gateway transport also when it is shut
 down while it connects or checks its queue

---
 .../transport_layer/sample/bidirectional_transport.cpp   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..d956fcd 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -217,7 +217,7 @@ void BidirectionalTransport::ConnectionLoop(score::cpp::stop_token stop_token)
 
         const auto send_result = send_task_result.Get();
 
-        if (!receive_connected || !send_result.has_value())
+        if (!receive_connected || !send_result.has_value() || dispatch_shutdown_)
         {
             CleanupSocketsForReconnection();
             break;  // Shutdown has been requested or setup failed.
@@ -478,6 +478,12 @@ bool BidirectionalTransport::IsConnected() const
 
 void BidirectionalTransport::Shutdown()
 {
+    // Set before the sockets are shut down: the connection loop checks it after it has set up its sockets and so does not
+    // wait on sockets that this shutdown has missed. Set under the lock, so that the dispatch loop does not miss it.
+    {
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     is_connected_ = false;
 
     pending_tracker_->NotifyAll();
@@ -486,7 +492,6 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
-- 
2.43.0


From cc26491ac8db5847ed2479fa20ca1e8231161020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:04 +0000
Subject: [PATCH 33/42] fix: let Setup of the gateway transport fail when no
 connection can be made any more

---
 .../gateway/transport_layer/sample/bidirectional_transport.cpp | 3 ++-
 .../gateway/transport_layer/sample/bidirectional_transport.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index d956fcd..c777bda 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -84,6 +84,7 @@ score::Result<void> BidirectionalTransport::Setup()
     threads_.Enqueue(score::concurrency::SimpleTaskFactory::Make(score::cpp::pmr::get_default_resource(),
                                                                  [this](const score::cpp::stop_token stop_token) {
                                                                      this->ConnectionLoop(stop_token);
+                                                                     connection_loop_ended_ = true;
                                                                  }));
     threads_.Enqueue(score::concurrency::SimpleTaskFactory::Make(score::cpp::pmr::get_default_resource(),
                                                                  [this](const score::cpp::stop_token stop_token) {
@@ -92,7 +93,7 @@ score::Result<void> BidirectionalTransport::Setup()
 
     // we block the connection loop until the first connection is established to ensure that Setup() only returns once
     // the transport is actually ready to send and receive messages
-    while (!is_connected_ && !threads_.ShutdownRequested())
+    while (!is_connected_ && !connection_loop_ended_ && !threads_.ShutdownRequested())
     {
         std::this_thread::sleep_for(std::chrono::milliseconds(10));
     }
diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
index 95c9142..652b385 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
@@ -107,6 +107,7 @@ class BidirectionalTransport : public IBidirectionalTransport
     UniqueSocket receive_socket_;
 
     std::atomic<bool> is_connected_{false};
+    std::atomic<bool> connection_loop_ended_{false};
 
     MessageHandler message_handler_;
     bool has_message_handler_{false};
-- 
2.43.0


From 1613dbef1c0467dd94c510838a349bef9afd0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 34/42] fix: connect the gateway again when the remote side
 restarts while the connections are set up

---
 .../sample/bidirectional_transport.cpp        | 106 ++++++++++++------
 .../sample/bidirectional_transport.h          |   3 +
 .../transport_layer/sample/unique_socket.cpp  |   9 ++
 .../transport_layer/sample/unique_socket.h    |   3 +
 4 files changed, 85 insertions(+), 36 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index c777bda..23d189e 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -216,7 +216,34 @@ void BidirectionalTransport::ConnectionLoop(score::cpp::stop_token stop_token)
 
         const bool receive_connected = WaitForConnection(stop_token);
 
-        const auto send_result = send_task_result.Get();
+        auto send_result = send_task_result.Get();
+
+        // The remote side may have gone away or restarted before both connections were there. Then one of them leads to
+        // its former self: the other one must not be given up for it, as the remote side would take that for the same
+        // and both would go on like this for ever. We listen until both connections are good.
+        while (receive_connected && send_result.has_value() && !stop_token.stop_requested())
+        {
+            const bool receive_lost = !receive_socket_.IsValid() || receive_socket_.IsClosedByPeer();
+            const bool send_lost = send_socket_.IsClosedByPeer();
+            if (!receive_lost && !send_lost)
+            {
+                break;
+            }
+            if (receive_lost)
+            {
+                receive_socket_.ShutdownAndReset();
+                std::ignore = AcceptConnection(stop_token);
+            }
+            if (send_lost)
+            {
+                {
+                    std::lock_guard<std::mutex> lock(send_mutex_);
+                    send_socket_.ShutdownAndReset();
+                }
+                send_result = SetupSendSocket(stop_token);
+            }
+        }
+        listen_socket_.Reset();
 
         if (!receive_connected || !send_result.has_value() || dispatch_shutdown_)
         {
@@ -237,50 +264,57 @@ void BidirectionalTransport::ConnectionLoop(score::cpp::stop_token stop_token)
 
 bool BidirectionalTransport::WaitForConnection(score::cpp::stop_token stop_token)
 {
-    struct sockaddr_in client_addr{};
-    socklen_t client_len = sizeof(client_addr);
-
     while (!stop_token.stop_requested())
     {
-        // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast) required by POSIX sockaddr API
-        auto accept_result = Socket::instance().accept(
-            listen_socket_.Get(), reinterpret_cast<struct sockaddr*>(&client_addr), &client_len);
-
-        if (!accept_result.has_value())
+        if (AcceptConnection(stop_token))
         {
-            // EAGAIN and EWOULDBLOCK are expected since the listen socket is non-blocking, so we just continue waiting
-            // in that case. For other errors we still continue trying to accept new connections since
-            // transient errors can occur and we want to be resilient against them.
-            if (accept_result.error() == score::os::Error::createFromErrno(EAGAIN) ||
-                accept_result.error() == score::os::Error::createFromErrno(EWOULDBLOCK))
-            {
-                std::this_thread::sleep_for(std::chrono::milliseconds(100));
-                continue;
-            }
-            if (!stop_token.stop_requested())
-            {
-                ::score::mw::log::LogError() << "BidirectionalTransport: accept failed";
-            }
-            continue;
+            return true;
         }
+    }
+    return false;
+}
+
+bool BidirectionalTransport::AcceptConnection(const score::cpp::stop_token& stop_token)
+{
+    struct sockaddr_in client_addr{};
+    socklen_t client_len = sizeof(client_addr);
 
-        UniqueSocket client_sock(accept_result.value());
-        SetTcpNoDelay(client_sock.Get());
+    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast) required by POSIX sockaddr API
+    auto accept_result = Socket::instance().accept(
+        listen_socket_.Get(), reinterpret_cast<struct sockaddr*>(&client_addr), &client_len);
 
-        // On QNX, accepted sockets inherit SOCK_NONBLOCK from the listen socket.
-        // Clear it so recv() blocks properly instead of returning EAGAIN immediately.
-        int flags = fcntl(client_sock.Get(), F_GETFL, 0);
-        if (flags != -1)
-        // COV_JUSTIFIED_START gateway-clear-nonblock-on-accepted-socket
+    if (!accept_result.has_value())
+    {
+        // EAGAIN and EWOULDBLOCK are expected since the listen socket is non-blocking, so we just continue waiting
+        // in that case. For other errors we still continue trying to accept new connections since
+        // transient errors can occur and we want to be resilient against them.
+        if (accept_result.error() == score::os::Error::createFromErrno(EAGAIN) ||
+            accept_result.error() == score::os::Error::createFromErrno(EWOULDBLOCK))
         {
-            fcntl(client_sock.Get(), F_SETFL, flags & ~O_NONBLOCK);
+            std::this_thread::sleep_for(std::chrono::milliseconds(100));
+            return false;
         }
-        // COV_JUSTIFIED_STOP
-        receive_socket_ = std::move(client_sock);
-        listen_socket_.Reset();
-        return true;
+        if (!stop_token.stop_requested())
+        {
+            ::score::mw::log::LogError() << "BidirectionalTransport: accept failed";
+        }
+        return false;
     }
-    return false;
+
+    UniqueSocket client_sock(accept_result.value());
+    SetTcpNoDelay(client_sock.Get());
+
+    // On QNX, accepted sockets inherit SOCK_NONBLOCK from the listen socket.
+    // Clear it so recv() blocks properly instead of returning EAGAIN immediately.
+    int flags = fcntl(client_sock.Get(), F_GETFL, 0);
+    if (flags != -1)
+    // COV_JUSTIFIED_START gateway-clear-nonblock-on-accepted-socket
+    {
+        fcntl(client_sock.Get(), F_SETFL, flags & ~O_NONBLOCK);
+    }
+    // COV_JUSTIFIED_STOP
+    receive_socket_ = std::move(client_sock);
+    return true;
 }
 
 void BidirectionalTransport::ReceiveUntilDisconnect(score::cpp::stop_token stop_token)
diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
index 652b385..4c36053 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h
@@ -81,6 +81,9 @@ class BidirectionalTransport : public IBidirectionalTransport
 
     /// \brief Handles in loop that sockets are setup and connected. Calls receiving function if connected.
     void ConnectionLoop(score::cpp::stop_token stop_token);
+    /// \brief Accepts a connection of the remote side if there is one, waits for a moment otherwise.
+    bool AcceptConnection(const score::cpp::stop_token& stop_token);
+
     /// \brief Listening for incoming connections. If successfully accepted, receive socket will be set up.
     bool WaitForConnection(score::cpp::stop_token stop_token);
     /// \brief Until stopped or disconnect happens, listens for incoming messages and triggers deserialization of
diff --git a/score/mw/com/gateway/transport_layer/sample/unique_socket.cpp b/score/mw/com/gateway/transport_layer/sample/unique_socket.cpp
index 5cafb94..194accc 100644
--- a/score/mw/com/gateway/transport_layer/sample/unique_socket.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/unique_socket.cpp
@@ -16,6 +16,8 @@
 
 #include <sys/socket.h>
 
+#include <cerrno>
+
 #include <tuple>
 
 namespace score::mw::com::gateway
@@ -80,6 +82,13 @@ void UniqueSocket::ShutdownFd() noexcept
     }
 }
 
+bool UniqueSocket::IsClosedByPeer() const noexcept
+{
+    std::uint8_t byte{};
+    const auto received = ::recv(fd_.load(), &byte, sizeof(byte), MSG_PEEK | MSG_DONTWAIT);
+    return (received == 0) || ((received < 0) && (errno == ECONNRESET));
+}
+
 void UniqueSocket::CloseIfValid() noexcept
 {
     const auto fd = fd_.exchange(kInvalidFd);
diff --git a/score/mw/com/gateway/transport_layer/sample/unique_socket.h b/score/mw/com/gateway/transport_layer/sample/unique_socket.h
index a5e260d..43bee76 100644
--- a/score/mw/com/gateway/transport_layer/sample/unique_socket.h
+++ b/score/mw/com/gateway/transport_layer/sample/unique_socket.h
@@ -46,6 +46,9 @@ class UniqueSocket
     ///  with those calls.
     void ShutdownFd() noexcept;
 
+    /// \brief Whether the remote side has closed or reset the connection. Does not block and takes no data.
+    bool IsClosedByPeer() const noexcept;
+
   private:
     static constexpr std::int32_t kInvalidFd = -1;
     std::atomic<std::int32_t> fd_{kInvalidFd};
-- 
2.43.0


From 6e7bc5ce4c67d18b1a63513a937d510d06502ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:28 +0000
Subject: [PATCH 35/42] fix: do not end the gateway transport when its first
 connection is lost while Setup returns

---
 .../transport_layer/sample/bidirectional_transport.cpp     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index 23d189e..fd6e6b3 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -93,12 +93,15 @@ score::Result<void> BidirectionalTransport::Setup()
 
     // we block the connection loop until the first connection is established to ensure that Setup() only returns once
     // the transport is actually ready to send and receive messages
-    while (!is_connected_ && !connection_loop_ended_ && !threads_.ShutdownRequested())
+    bool connected = is_connected_;
+    while (!connected && !connection_loop_ended_ && !threads_.ShutdownRequested())
     {
         std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        connected = is_connected_;
     }
 
-    if (!is_connected_)
+    // A connection that is lost again meanwhile is set up again by the connection loop.
+    if (!connected)
     {
         Shutdown();
         return score::MakeUnexpected(TransportErrorc::kConnectionFailure);
-- 
2.43.0


From 9a3d64452cfa6ce9e2d2ad260a029dd72954f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:37 +0000
Subject: [PATCH 36/42] fix: unsubscribe the events of a generic proxy that is
 destroyed or assigned to

---
 score/mw/com/impl/generic_proxy_event.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/score/mw/com/impl/generic_proxy_event.cpp b/score/mw/com/impl/generic_proxy_event.cpp
index fa26c2b..8aeef69 100644
--- a/score/mw/com/impl/generic_proxy_event.cpp
+++ b/score/mw/com/impl/generic_proxy_event.cpp
@@ -29,6 +29,7 @@ GenericProxyEvent::GenericProxyEvent(ProxyBase& base, const std::string_view eve
                              return Result<std::unique_ptr<ProxyEventBindingBase>>{std::move(binding)};
                          })}
 {
+    ProxyBaseView{base}.RegisterEvent(event_name, GetReferenceToMoveable());
 }
 
 GenericProxyEvent::GenericProxyEvent(const std::string_view event_name,
-- 
2.43.0


From e40bf620453413359f372511b7e4424b7cfd5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:32 +0000
Subject: [PATCH 37/42] fix: do not end the gateway when a service that could
 not be propagated is stopped

---
 .../gateway_application/gateway_application.cpp        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index 4a4334d..51be52d 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -164,9 +164,13 @@ void GatewayApplication::OnServiceUnavailable(const std::string& specifier_str)
 {
     std::lock_guard<std::recursive_mutex> lock(mutex_);
     const auto it = proxies_.find(specifier_str);
-
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(it != proxies_.cend(),
-                                                "GatewayApplication: Service unavailable but proxy not found");
+    if (it == proxies_.cend())
+    {
+        // The service was found, but its proxy could not be created or the remote gateway did not provide it.
+        score::mw::log::LogInfo() << "GatewayApplication: Service which was not propagated is no longer available: "
+                                  << specifier_str;
+        return;
+    }
 
     score::mw::log::LogInfo() << "GatewayApplication: Service no longer available: " << specifier_str;
 
-- 
2.43.0


From 4ac0301a90a263d3ee330c8b723917eefcda1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:32 +0000
Subject: [PATCH 38/42] fix: provide the services forwarded by a gateway with a
 valid alignment

---
 .../gateway_application.cpp                    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index 51be52d..a7d662f 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -20,6 +20,7 @@
 #include "score/mw/log/logging.h"
 #include <score/assert.hpp>
 
+#include <cstddef>
 #include <cstdint>
 #include <limits>
 #include <memory>
@@ -36,6 +37,18 @@ namespace
 // actual data is read directly from shared memory by the consumer.
 constexpr std::size_t kGatewaySubscribeSamples = 1U;
 
+/// \brief A proxy only knows the size of the samples. The size of a type is a multiple of its alignment, so that its
+/// largest power of two (up to the alignment every allocation has) is an alignment that suits every type of this size.
+std::size_t GetSufficientAlignment(const std::size_t sample_size)
+{
+    std::size_t alignment{1U};
+    while ((alignment < alignof(std::max_align_t)) && ((sample_size % (alignment * 2U)) == 0U))
+    {
+        alignment *= 2U;
+    }
+    return alignment;
+}
+
 }  // namespace
 
 GatewayApplication::~GatewayApplication()
@@ -208,8 +221,9 @@ void GatewayApplication::PropagateService(const std::string& specifier_str)
     for (const auto& [event_name, event] : std::as_const(event_map))
     {
         const auto sample_size = event.GetSampleSize();
-        elements.push_back(
-            score::mw::com::impl::EventInfo{event_name, score::mw::com::impl::DataTypeMetaInfo{sample_size, 0U}});
+        elements.push_back(score::mw::com::impl::EventInfo{
+            event_name,
+            score::mw::com::impl::DataTypeMetaInfo{sample_size, GetSufficientAlignment(sample_size)}});
     }
 
     auto provide_result = transport_layer_->ProvideService(std::move(specifier_result).value(), std::move(elements));
-- 
2.43.0


From fb306e24c563a2bb0a2cdc3b3a80850174dc7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:13 +0000
Subject: [PATCH 39/42] fix: open the current shared memory when a forwarded
 service is offered again

---
 score/mw/com/impl/bindings/lola/skeleton.cpp          |  2 ++
 .../impl/bindings/lola/skeleton_memory_manager.cpp    | 11 ++++++++---
 .../com/impl/bindings/lola/skeleton_memory_manager.h  |  3 +++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 72a9ece..bc5b1e7 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -317,6 +317,8 @@ auto Skeleton::PrepareOffer(SkeletonEventBindings& events,
             // calling memory_manager_.OpenExistingSharedMemory, because it relies on this member being set correctly.
             was_old_shm_region_reopened_ = false;
             use_gateway_forwarded_shm_ = true;
+            // A previous offer left references to the shared memory. The provider may have replaced it in the meantime.
+            memory_manager_.ReleaseSharedMemory();
             shm_setup_result = memory_manager_.OpenExistingSharedMemory(std::move(register_shm_object_trace_callback));
             if (!shm_setup_result.has_value())
             {
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 9e01212..d1d6243 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -357,14 +357,19 @@ void SkeletonMemoryManager::RemoveSharedMemory()
     control_asil_resource_.reset();
 }
 
-void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
+void SkeletonMemoryManager::ReleaseSharedMemory()
 {
-    // If the service was stop-offered while proxies were still using the shared memory, we kept our references to it. As
-    // no proxy uses it anymore, it is stale and has to be released before its artefacts can be removed.
     Reset();
     storage_resource_.reset();
     control_qm_resource_.reset();
     control_asil_resource_.reset();
+}
+
+void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
+{
+    // If the service was stop-offered while proxies were still using the shared memory, we kept our references to it. As
+    // no proxy uses it anymore, it is stale and has to be released before its artefacts can be removed.
+    ReleaseSharedMemory();
 
     const auto control_qm_path =
         GetControlChannelShmPath(lola_service_instance_deployment_, QualityType::kASIL_QM, shm_path_builder_);
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
index 431f434..849f6cf 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
@@ -146,6 +146,9 @@ class SkeletonMemoryManager final
     /// \brief Remove the control and data shared memory regions
     void RemoveSharedMemory();
 
+    /// \brief Releases the references to the control and data shared memory regions without removing them
+    void ReleaseSharedMemory();
+
     /// \brief Removes stale shared memory artefacts from the filesystem in case a process crashed while creating a
     ///        SharedMemoryResource.
     void RemoveStaleSharedMemoryArtefacts();
-- 
2.43.0


From dcc12be82ac1dd882f0768c51ca81cee74921784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:22 +0000
Subject: [PATCH 40/42] fix: protect what the gateway application shares
 between service discovery, transport and subscriptions

---
 .../gateway_application.cpp                   | 41 ++++++++++++-------
 .../gateway_application/gateway_application.h | 12 +++++-
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index a7d662f..0c42668 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -140,6 +140,13 @@ score::Result<void> GatewayApplication::StartServiceDiscovery()
     return {};
 }
 
+std::shared_ptr<score::mw::com::GenericProxy> GatewayApplication::FindProxy(const std::string& specifier_str)
+{
+    std::lock_guard<std::mutex> lock(proxies_mutex_);
+    const auto it = proxies_.find(specifier_str);
+    return (it != proxies_.cend()) ? it->second : nullptr;
+}
+
 void GatewayApplication::OnServiceAvailabilityChanged(const std::string& specifier_str,
                                                       std::vector<score::mw::com::HandleType> handles)
 {
@@ -151,7 +158,7 @@ void GatewayApplication::OnServiceAvailabilityChanged(const std::string& specifi
         return;
     }
 
-    if (proxies_.count(specifier_str) > 0U)
+    if (FindProxy(specifier_str) != nullptr)
     {
         // Proxy kept alive from a previous cycle (see OnServiceUnavailable). Re-propagate so
         // the remote gateway recreates its skeleton.
@@ -169,15 +176,18 @@ void GatewayApplication::OnServiceAvailabilityChanged(const std::string& specifi
         return;
     }
 
-    proxies_.emplace(specifier_str, std::move(proxy_result).value());
+    {
+        std::lock_guard<std::mutex> proxies_lock(proxies_mutex_);
+        proxies_.emplace(specifier_str,
+                         std::make_shared<score::mw::com::GenericProxy>(std::move(proxy_result).value()));
+    }
     PropagateService(specifier_str);
 }
 
 void GatewayApplication::OnServiceUnavailable(const std::string& specifier_str)
 {
     std::lock_guard<std::recursive_mutex> lock(mutex_);
-    const auto it = proxies_.find(specifier_str);
-    if (it == proxies_.cend())
+    if (FindProxy(specifier_str) == nullptr)
     {
         // The service was found, but its proxy could not be created or the remote gateway did not provide it.
         score::mw::log::LogInfo() << "GatewayApplication: Service which was not propagated is no longer available: "
@@ -204,9 +214,9 @@ void GatewayApplication::OnServiceUnavailable(const std::string& specifier_str)
 
 void GatewayApplication::PropagateService(const std::string& specifier_str)
 {
-    const auto proxy_it = proxies_.find(specifier_str);
+    const auto proxy = FindProxy(specifier_str);
 
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(proxy_it != proxies_.cend(),
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(proxy != nullptr,
                                                 "GatewayApplication: Proxy not found in PropagateService");
 
     auto specifier_result = score::mw::com::InstanceSpecifier::Create(std::string{specifier_str});
@@ -217,7 +227,7 @@ void GatewayApplication::PropagateService(const std::string& specifier_str)
     }
 
     std::vector<score::mw::com::EventInfo> elements{};
-    const auto& event_map = proxy_it->second.GetEvents();
+    const auto& event_map = proxy->GetEvents();
     for (const auto& [event_name, event] : std::as_const(event_map))
     {
         const auto sample_size = event.GetSampleSize();
@@ -233,6 +243,7 @@ void GatewayApplication::PropagateService(const std::string& specifier_str)
                                    << ", will retry on next discovery";
         // Next time the service instance gets found again, proxy will get recreated and PropagateService
         // will be retried.
+        std::lock_guard<std::mutex> proxies_lock(proxies_mutex_);
         proxies_.erase(specifier_str);
         return;
     }
@@ -274,7 +285,7 @@ void GatewayApplication::OnSubscriptionStateChanged(const std::string& specifier
                                                     const std::string& event_name,
                                                     bool has_subscribers)
 {
-    std::lock_guard<std::recursive_mutex> lock(mutex_);
+    std::lock_guard<std::recursive_mutex> lock(active_event_subscriptions_mutex_);
     const auto specifier_result = score::mw::com::InstanceSpecifier::Create(std::string{specifier_str});
     if (!specifier_result.has_value())
     {
@@ -329,6 +340,7 @@ void GatewayApplication::OnSubscriptionStateChanged(const std::string& specifier
 
 void GatewayApplication::ReRegisterActiveEventSubscriptions(const std::string& specifier_str)
 {
+    std::lock_guard<std::recursive_mutex> lock(active_event_subscriptions_mutex_);
     const auto sub_it = active_event_subscriptions_.find(specifier_str);
     if (sub_it == active_event_subscriptions_.end() || sub_it->second.empty())
     {
@@ -479,14 +491,14 @@ score::Result<void> GatewayApplication::RegisterUpdateNotification(
     score::mw::log::LogInfo() << "GatewayApplication: HandleRegisterNotificationRequest for "
                               << service_instance_specifier << " element " << element_name;
 
-    auto it = proxies_.find(specifier_str);
-    if (it == proxies_.end())
+    const auto proxy = FindProxy(specifier_str);
+    if (proxy == nullptr)
     {
         score::mw::log::LogError() << "GatewayApplication: No proxy found for " << specifier_str;
         return MakeUnexpected(GatewayErrorc::kUnknownServiceInstance);
     }
 
-    auto event_map = it->second.GetEvents();
+    auto event_map = proxy->GetEvents();
     auto event_it = event_map.find(element_name);
     if (event_it == event_map.cend())
     {
@@ -506,7 +518,6 @@ score::Result<void> GatewayApplication::RegisterUpdateNotification(
     using ReceiveCallback = safecpp::MoveOnlyScopedFunction<void()>;
     auto scoped_handler = std::make_shared<ReceiveCallback>(
         scope_, [this, spec = specifier_str, elem_name = std::string(element_name), elem_type = element_type]() {
-            std::lock_guard<std::recursive_mutex> lock(mutex_);
             auto specifier_result = score::mw::com::InstanceSpecifier::Create(std::string{spec});
             if (specifier_result.has_value())
             {
@@ -541,8 +552,8 @@ score::Result<void> GatewayApplication::UnregisterUpdateNotification(
     score::mw::log::LogInfo() << "GatewayApplication: HandleUnregisterNotificationRequest for " << specifier_str
                               << " element " << element_name;
 
-    auto it = proxies_.find(specifier_str);
-    if (it == proxies_.end())
+    const auto proxy = FindProxy(specifier_str);
+    if (proxy == nullptr)
     {
         return MakeUnexpected(GatewayErrorc::kUnknownServiceInstance);
     }
@@ -551,7 +562,7 @@ score::Result<void> GatewayApplication::UnregisterUpdateNotification(
         element_type == impl::ServiceElementType::EVENT,
         "GatewayApplication: UnregisterUpdateNotification only supports events!");
 
-    auto event_map = it->second.GetEvents();
+    auto event_map = proxy->GetEvents();
     auto event_it = event_map.find(element_name);
     if (event_it == event_map.cend())
     {
diff --git a/score/mw/com/gateway/gateway_application/gateway_application.h b/score/mw/com/gateway/gateway_application/gateway_application.h
index 22adeda..b26fac5 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.h
+++ b/score/mw/com/gateway/gateway_application/gateway_application.h
@@ -72,10 +72,17 @@ class GatewayApplication : public GatewayCore
     GatewayConfiguration app_configuration_;
     std::unique_ptr<Transport> transport_layer_;
 
+    /// \brief Serializes the reactions to changes of the availability of forwarded services.
     std::recursive_mutex mutex_;
-    std::unordered_map<std::string, score::mw::com::GenericProxy> proxies_;
+    /// \brief Protects proxies_, which is used by service discovery and by the transport layer. It is only held for
+    /// accesses to the map: the transport layer must be able to serve the other side while a service is propagated.
+    std::mutex proxies_mutex_;
+    std::unordered_map<std::string, std::shared_ptr<score::mw::com::GenericProxy>> proxies_;
     std::unordered_map<std::string, score::mw::com::GenericSkeleton> skeletons_;
     std::vector<score::mw::com::FindServiceHandle> find_handles_;
+    /// \brief Protects active_event_subscriptions_ and keeps the (un)registrations of updates, which are sent to the
+    /// other side, in the order of the changes of active_event_subscriptions_.
+    std::recursive_mutex active_event_subscriptions_mutex_;
     std::unordered_map<std::string, std::unordered_set<std::string>> active_event_subscriptions_;
 
     /// \brief Starts asynchronous service discovery for all forwarded services.
@@ -93,6 +100,9 @@ class GatewayApplication : public GatewayCore
     void OnServiceUnavailable(const std::string& specifier_str);
     void PropagateService(const std::string& specifier_str);
 
+    /// \brief Returns the proxy of a forwarded service or nullptr, if there is none.
+    std::shared_ptr<score::mw::com::GenericProxy> FindProxy(const std::string& specifier_str);
+
     void RegisterEventReceiveHandlerCallback(score::mw::com::GenericSkeleton& skeleton,
                                              const std::string& specifier_str,
                                              const std::string& event_name);
-- 
2.43.0


From 2d3792c9ddd33238a553db3d84672efa00bd67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:32 +0000
Subject: [PATCH 41/42] fix: do not truncate the sample count of a subscription

A max_sample_count above 65535 was counted modulo 65536 against the slots of the event, and subscribing again while the
subscription was pending compared the count modulo 256.
---
 .../lola/subscription_not_subscribed_states.cpp   | 15 ++++++++++++---
 .../lola/subscription_subscribed_states.cpp       |  8 +-------
 .../subscription_subscription_pending_states.cpp  |  8 +-------
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp b/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
index c593af3..d5dac74 100644
--- a/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
@@ -24,6 +24,8 @@
 
 #include <score/utility.hpp>
 
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <sstream>
 #include <utility>
@@ -37,6 +39,15 @@ namespace score::mw::com::impl::lola
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 Result<void> NotSubscribedState::SubscribeEvent(const std::size_t max_sample_count)
 {
+    if (max_sample_count > std::numeric_limits<std::uint16_t>::max())
+    {
+        ::score::mw::log::LogError("lola") << CreateLoggingString(
+            "Subscribe was rejected as the max_sample_count exceeds the maximum which can be represented.",
+            state_machine_.GetElementFqId(),
+            state_machine_.GetCurrentStateNoLock());
+        return MakeUnexpected(ComErrc::kMaxSampleCountNotRealizable);
+    }
+
     auto transaction_log_registration_guard_result = state_machine_.transaction_log_set_.RegisterProxyElement(
         state_machine_.transaction_log_id_, state_machine_.event_data_control_local_);
     if (!(transaction_log_registration_guard_result.has_value()))
@@ -63,9 +74,7 @@ Result<void> NotSubscribedState::SubscribeEvent(const std::size_t max_sample_cou
     TransactionLogLocalView transaction_log_local_view{transaction_log};
     transaction_log_local_view.SubscribeTransactionBegin(max_sample_count);
 
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting, as the max sample count could be hold by uint16.
+    // The cast does not lead to data loss as the max_sample_count was checked above.
     // coverity[autosar_cpp14_a4_7_1_violation]
     const auto max_sample_count_uint16 = static_cast<std::uint16_t>(max_sample_count);
     const auto subscription_result = state_machine_.subscription_control_.Subscribe(max_sample_count_uint16);
diff --git a/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
index 86d1ef1..6911904 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
@@ -28,13 +28,7 @@ namespace score::mw::com::impl::lola
 
 Result<void> SubscribedState::SubscribeEvent(const std::size_t max_sample_count)
 {
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting and below we do check on the max_sample_count and an error reported in case of
-    // different max_sample_count.
-    // coverity[autosar_cpp14_a4_7_1_violation]
-    const auto max_sample_count_uint16 = static_cast<std::uint16_t>(max_sample_count);
-    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count_uint16)
+    if (std::size_t{state_machine_.subscription_data_.max_sample_count_.value()} == max_sample_count)
     {
         ::score::mw::log::LogWarn("lola")
             << CreateLoggingString("Calling SubscribeEvent() while already subscribed has no effect.",
diff --git a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
index 2fbdd4b..5d086f2 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
@@ -30,13 +30,7 @@ namespace score::mw::com::impl::lola
 
 Result<void> SubscriptionPendingState::SubscribeEvent(const std::size_t max_sample_count)
 {
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting and below we do check on the max_sample_count and an error reported in case of
-    // different max_sample_count.
-    // coverity[autosar_cpp14_a4_7_1_violation]
-    const auto max_sample_count_uint8 = static_cast<std::uint8_t>(max_sample_count);
-    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count_uint8)
+    if (std::size_t{state_machine_.subscription_data_.max_sample_count_.value()} == max_sample_count)
     {
         ::score::mw::log::LogWarn("lola")
             << CreateLoggingString("Calling SubscribeEvent() while subscription is pending has no effect.",
-- 
2.43.0


From faa485af0b5a5359982f0709318765cf861c7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:54 +0000
Subject: [PATCH 42/42] fix: protect what the tracing runtimes share between
 services

---
 .../bindings/lola/tracing/tracing_runtime.cpp | 17 ++++++++++--
 .../bindings/lola/tracing/tracing_runtime.h   |  7 ++++-
 score/mw/com/impl/tracing/tracing_runtime.cpp | 22 ++++++++--------
 score/mw/com/impl/tracing/tracing_runtime.h   | 26 ++++++++++---------
 4 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
index 84404c4..bfbfa20 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
@@ -68,6 +68,7 @@ TracingRuntime::TracingRuntime(const SamplePointerIndex number_of_needed_tracing
       trace_client_id_{},
       data_loss_flag_{false},
       type_erased_sample_ptrs_{number_of_needed_tracing_slots},
+      registration_mutex_{},
       next_available_position_for_new_service_element_range_start_{0U},
       shm_object_handle_map_{},
       failed_shm_object_registration_cache_{},
@@ -149,6 +150,7 @@ impl::tracing::ServiceElementTracingData TracingRuntime::RegisterServiceElement(
         std::terminate();
     }
 
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto start_of_current_range = next_available_position_for_new_service_element_range_start_;
     const auto end_of_current_range =
         static_cast<std::size_t>(next_available_position_for_new_service_element_range_start_) +
@@ -190,6 +192,7 @@ void TracingRuntime::RegisterShmObject(
             kDummyElementNameForShmRegisterCallback,
         "Unexpected service_element_name in LoLa TracingRuntime::RegisterShmObject");
     const auto map_value = std::make_pair(shm_object_handle, shm_memory_start_address);
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto insert_result =
         shm_object_handle_map_.insert(std::make_pair(service_element_instance_identifier_view, map_value));
     if (!insert_result.second)
@@ -203,6 +206,7 @@ void TracingRuntime::RegisterShmObject(
 void TracingRuntime::UnregisterShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto erase_result = shm_object_handle_map_.erase(service_element_instance_identifier_view);
     if (erase_result == 0U)
     {
@@ -216,6 +220,7 @@ void TracingRuntime::CacheFileDescriptorForReregisteringShmObject(
     void* const shm_memory_start_address) noexcept
 {
     const auto map_value = std::make_pair(shm_file_descriptor, shm_memory_start_address);
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto insert_result = failed_shm_object_registration_cache_.insert(
         std::make_pair(service_element_instance_identifier_view, map_value));
     if (!insert_result.second)
@@ -230,6 +235,7 @@ std::optional<std::pair<memory::shared::ISharedMemoryResource::FileDescriptor, v
 TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) const noexcept
 {
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto find_result = failed_shm_object_registration_cache_.find(service_element_instance_identifier_view);
     if (find_result == failed_shm_object_registration_cache_.end())
     {
@@ -241,6 +247,7 @@ TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
 void TracingRuntime::ClearCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto erase_result = failed_shm_object_registration_cache_.erase(service_element_instance_identifier_view);
     if (erase_result == 0U)
     {
@@ -331,6 +338,7 @@ std::optional<analysis::tracing::ShmObjectHandle> TracingRuntime::GetShmObjectHa
     impl::tracing::ServiceElementInstanceIdentifierView lolaBindingSpecificIdentifier =
         ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view);
 
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto find_result = shm_object_handle_map_.find(lolaBindingSpecificIdentifier);
     if (find_result == shm_object_handle_map_.end())
     {
@@ -345,6 +353,7 @@ std::optional<void*> TracingRuntime::GetShmRegionStartAddress(
     impl::tracing::ServiceElementInstanceIdentifierView simplifiedIdentifier =
         ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view);
 
+    const std::lock_guard<std::mutex> lock{registration_mutex_};
     const auto find_result = shm_object_handle_map_.find(simplifiedIdentifier);
     if (find_result == shm_object_handle_map_.end())
     {
@@ -405,8 +414,12 @@ auto TracingRuntime::GetTraceContextId(
 TracingRuntime::EmplaceTypeErasedSamplePtr(impl::tracing::TypeErasedSamplePtr type_erased_sample_ptr,
                                            const impl::tracing::ServiceElementTracingData service_element_tracing_data)
 {
-    if (service_element_tracing_data.service_element_range_start >=
-        next_available_position_for_new_service_element_range_start_)
+    const auto is_registered = [this, &service_element_tracing_data]() {
+        const std::lock_guard<std::mutex> registration_lock{registration_mutex_};
+        return service_element_tracing_data.service_element_range_start <
+               next_available_position_for_new_service_element_range_start_;
+    };
+    if (!is_registered())
     {
         score::mw::log::LogFatal("lola")
             << "Cannot set type erased sample pointer as provided service element with range start at"
diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
index f201ce1..38ee8a5 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
@@ -23,6 +23,7 @@
 #include "score/language/safecpp/scoped_function/scope.h"
 #include "score/memory/shared/i_shared_memory_resource.h"
 
+#include <atomic>
 #include <cstddef>
 #include <mutex>
 #include <optional>
@@ -168,7 +169,7 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
 
     const Configuration& configuration_;
     std::optional<analysis::tracing::TraceClientId> trace_client_id_;
-    bool data_loss_flag_;
+    std::atomic_bool data_loss_flag_;
 
     /// \brief Array of type erased sample pointers containing one element per service element that registers itself via
     ///        RegisterServiceElement.
@@ -177,6 +178,10 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
     /// without synchronisation. However, operations on individual elements must be protected by a mutex.
     score::containers::DynamicArray<TypeErasedSamplePtrWithMutex> type_erased_sample_ptrs_;
 
+    /// \brief Protects the registrations of service elements and shared memory objects below: Services are created,
+    ///        offered and stopped on different threads, while others are traced.
+    mutable std::mutex registration_mutex_;
+
     /// \brief Index in type_erased_sample_ptrs_. This is the index directly after the index, where the range of last
     /// service element that was registered via RegisterServiceElement, ends.
     SamplePointerIndex next_available_position_for_new_service_element_range_start_;
diff --git a/score/mw/com/impl/tracing/tracing_runtime.cpp b/score/mw/com/impl/tracing/tracing_runtime.cpp
index ea3bb45..130fb71 100644
--- a/score/mw/com/impl/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/tracing/tracing_runtime.cpp
@@ -197,7 +197,7 @@ namespace detail_tracing_runtime
 {
 
 TracingRuntimeAtomicState::TracingRuntimeAtomicState() noexcept
-    : consecutive_failure_counter{0U}, is_tracing_enabled{true}
+    : consecutive_failure_counter{0U}, is_tracing_enabled{true}, debounce_counter{0U}, first_debounce{true}
 {
 }
 
@@ -213,7 +213,9 @@ TracingRuntimeAtomicState::TracingRuntimeAtomicState(TracingRuntimeAtomicState&&
     : consecutive_failure_counter{other.consecutive_failure_counter.load()},
       // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
       // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
-      is_tracing_enabled{other.is_tracing_enabled.load()}
+      is_tracing_enabled{other.is_tracing_enabled.load()},
+      debounce_counter{other.debounce_counter.load()},
+      first_debounce{other.first_debounce.load()}
 {
 }
 
@@ -231,6 +233,8 @@ TracingRuntimeAtomicState& TracingRuntimeAtomicState::operator=(TracingRuntimeAt
     // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
     // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
     is_tracing_enabled = other.is_tracing_enabled.load();
+    debounce_counter = other.debounce_counter.load();
+    first_debounce = other.first_debounce.load();
     return *this;
 }
 
@@ -304,9 +308,7 @@ IBindingTracingRuntime& TracingRuntime::GetBindingTracingRuntime(const BindingTy
 TracingRuntime::TracingRuntime(
     std::unordered_map<BindingType, IBindingTracingRuntime*>&& binding_tracing_runtimes) noexcept
     : ITracingRuntime{},
-      binding_tracing_runtimes_{std::move(binding_tracing_runtimes)},
-      debounce_counter_{0U},
-      first_debounce_{true}
+      binding_tracing_runtimes_{std::move(binding_tracing_runtimes)}
 {
     for (auto binding_tracing_runtime : binding_tracing_runtimes_)
     {
@@ -554,8 +556,7 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
     {
         // Handle debounced logging for no available tracing slots
         // Log first 10 failures at LogInfo level, then switch to LogDebug to reduce DLT bandwidth.
-        ++debounce_counter_;
-        const bool debouncing_active = (debounce_counter_ >= kDebounceAfter);
+        const bool debouncing_active = (++atomic_state_.debounce_counter >= kDebounceAfter);
 
         if (!debouncing_active)
         {
@@ -568,11 +569,10 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
         }
         else
         {
-            if (first_debounce_)
+            if (atomic_state_.first_debounce.exchange(false))
             {
                 score::mw::log::LogInfo("lola")
                     << "LogLevel for consecutive 'no tracing slot available' errors changed to kDebug";
-                first_debounce_ = false;
             }
             score::mw::log::LogDebug("lola")
                 << "No tracing slot available for service element " << service_element_instance_identifier
@@ -588,8 +588,8 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
     else
     {
         // Reset debouncing state when a slot becomes available
-        debounce_counter_ = 0U;
-        first_debounce_ = true;
+        atomic_state_.debounce_counter = 0U;
+        atomic_state_.first_debounce = true;
     }
 
     const auto trace_context_id_value = trace_context_id.value();
diff --git a/score/mw/com/impl/tracing/tracing_runtime.h b/score/mw/com/impl/tracing/tracing_runtime.h
index 0048bb1..4da89c0 100644
--- a/score/mw/com/impl/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/tracing/tracing_runtime.h
@@ -55,6 +55,20 @@ class TracingRuntimeAtomicState
     ///        the life-cycle.
     // coverity[autosar_cpp14_m11_0_1_violation]
     std::atomic_bool is_tracing_enabled;
+
+    /// \brief Counter for consecutive "no tracing slot available" failures
+    /// \details Tracks consecutive getting available slots failures. Incremented on each failure, reset to 0 when
+    ///          tracing slot becomes available again. Used with TracingRuntime::kDebounceAfter to determine when to switch
+    ///          log levels from LogInfo to LogDebug.
+    // coverity[autosar_cpp14_m11_0_1_violation]
+    std::atomic_uint8_t debounce_counter;
+
+    /// \brief Flag to track if this is the first time debouncing becomes active
+    /// \details Initially true. Set to false when debounce_counter first exceeds kDebounceAfter threshold. Used to log
+    ///          a one-time LogInfo message about switching to LogDebug level before the transition. Remains false for
+    ///          the lifetime of the TracingRuntime instance once debouncing has activated.
+    // coverity[autosar_cpp14_m11_0_1_violation]
+    std::atomic_bool first_debounce;
 };
 
 }  // namespace detail_tracing_runtime
@@ -181,18 +195,6 @@ class TracingRuntime : public ITracingRuntime
     ///          subsequent failure messages will be logged at LogDebug level instead of LogInfo to reduce DLT
     ///          bandwidth.
     static constexpr std::uint8_t kDebounceAfter{10U};
-
-    /// \brief Counter for consecutive "no tracing slot available" failures
-    /// \details Tracks consecutive getting available slots failures. Incremented on each failure, reset to 0 when
-    ///          tracing slot becomes available again. Used with kDebounceAfter threshold to determine when to switch
-    ///          log levels from LogInfo to LogDebug.
-    std::uint8_t debounce_counter_;
-
-    /// \brief Flag to track if this is the first time debouncing becomes active
-    /// \details Initially true. Set to false when debounce_counter_ first exceeds kDebounceAfter threshold. Used to log
-    ///          a one-time LogInfo message about switching to LogDebug level before the transition. Remains false for
-    ///          the lifetime of the TracingRuntime instance once debouncing has activated.
-    bool first_debounce_;
 };
 
 }  // namespace score::mw::com::impl::tracing
-- 
2.43.0

