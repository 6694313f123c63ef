From a253a3361d514875def047ddae94af9184c00af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 01/29] fix: count an internal allocation only after it
 succeeded

allocate_internal/allocate_named_internal updated the statistics before calling
allocate(); when allocate() threw, current size, count and high watermark of the
strategy stayed inflated.
---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..c94bd96 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ptr = allocate(bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ptr;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ptr = allocate_named(name, bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ptr;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From 8c17fb29e264b363d2cb0fc525c5b04b51b66643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 02/29] fix: SizeLimiter limit bypass by wrap-around and leak
 of budget on failure

m_total_size + bytes could wrap past zero and admit a request beyond the limit; a
throw from the underlying allocator left m_total_size inflated for ever.
---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..9ecc961 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit - m_total_size) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ret = m_allocator->allocate_internal(bytes);
+  m_total_size += bytes;
+
+  return ret;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From 53eb9712e05be402a8446579fd8a0e904282432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 03/29] fix: MonotonicAllocationStrategy must not consume
 capacity for a rejected request

m_size was advanced before the capacity check: one oversized request made every
later request fail, and a request near SIZE_MAX wrapped m_size and handed out
memory that is already in use.
---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..b57f2e0 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
+  if (bytes > m_capacity - m_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("MonotonicAllocationStrategy capacity exceeded {} + {} > {}", m_size, bytes,
+                                            m_capacity));
+  }
+
   void* ret = static_cast<char*>(m_block) + m_size;
   m_size += bytes;
 
-  if (m_size > m_capacity) {
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
-  }
-
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From 0ee212bbc3b419c82f5fa874d6dc630d413b4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 04/29] fix: NamingShim::deallocate must pass the size on

The wrapped strategy was told size 0: its current size never went down, and
strategies that rely on the size (SizeLimiter, AlignedAllocator) returned a wrong
size further up.
---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From 8b272ba8eee6f419b6cfc26abdd117603cd76fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 05/29] fix: update statistics only after the allocation was
 registered

registerAllocation() rejects a null pointer (a full SlotPool returns one); the
statistics of the strategy had been incremented already and stayed wrong.
---
 src/umpire/strategy/mixins/Inspector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/mixins/Inspector.cpp b/src/umpire/strategy/mixins/Inspector.cpp
index eca487a..768c557 100644
--- a/src/umpire/strategy/mixins/Inspector.cpp
+++ b/src/umpire/strategy/mixins/Inspector.cpp
@@ -16,26 +16,26 @@ namespace mixins {
 
 void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* s)
 {
+  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s});
+
   s->m_current_size += size;
   s->m_allocation_count++;
 
   if (s->m_current_size > s->m_high_watermark) {
     s->m_high_watermark = s->m_current_size;
   }
-
-  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s});
 }
 
 void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* s, const std::string& name)
 {
+  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s, name});
+
   s->m_current_size += size;
   s->m_allocation_count++;
 
   if (s->m_current_size > s->m_high_watermark) {
     s->m_high_watermark = s->m_current_size;
   }
-
-  ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s, name});
 }
 
 util::AllocationRecord
-- 
2.43.0


From f998b2bd9056cf3eef22b170d85171714d03d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 06/29] fix: SlotPool slot lost when the upstream allocation
 throws, wrong size in destructor

The slot was marked in use before allocate_internal(); after a throw it stayed
marked with a null pointer. The destructor passed the negated length of a slot in
use as its size.
---
 src/umpire/strategy/SlotPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..c08a3d0 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -35,7 +35,7 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      m_allocator->deallocate_internal(m_pointers[i], (m_lengths[i] < 0) ? -m_lengths[i] : m_lengths[i]);
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
@@ -60,8 +60,8 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
-- 
2.43.0


From b5cb4b302c9b1b81ea0221791bc5bff06c43d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 07/29] fix: FixedPool::release must reduce the actual size

getActualSize() kept counting pools that had been returned.
---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..7eb40df 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From 27f1d17afc6b78c3390a9a9e5733b4aeebbe6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 08/29] fix: reject sizes whose aligned size overflows in the
 pools

Rounding a request within alignment-1 of SIZE_MAX wrapped to zero, and QuickPool and
DynamicPoolList returned a pointer to a zero-byte chunk for it; aligned_allocate
wrapped in the same way.
---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..260811f 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_aligned_allocation_INL
 #define UMPIRE_aligned_allocation_INL
 
+#include <limits>
+
 #include "umpire/util/allocation_statistics.hpp"
+#include "umpire/util/error.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
 
@@ -17,11 +20,19 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() - (m_alignment - 1)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot round {} up to a multiple of {}", size, m_alignment));
+  }
+
   return size + (m_alignment - 1) - (size - 1) % m_alignment;
 }
 
 inline void* AlignedAllocation::aligned_allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() - m_alignment) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot align an allocation of {} bytes to {}", size, m_alignment));
+  }
+
   std::size_t total_bytes{ size + m_alignment };
   uintptr_t ptr{ reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes)) };
 
-- 
2.43.0


From 61676e30d23367e8e1603939deb883dc652b5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 09/29] fix: AlignedAllocator must reject sizes whose padded
 size overflows

bytes + sizeof(void*) + alignment - 1 wrapped for requests near SIZE_MAX, and a tiny
block was returned for a huge request.
---
 src/umpire/strategy/AlignedAllocator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..a5ae6f0 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -6,7 +6,10 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/AlignedAllocator.hpp"
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -30,6 +33,10 @@ AlignedAllocator::AlignedAllocator(const std::string& name, int id, Allocator al
 
 void* AlignedAllocator::allocate(std::size_t bytes)
 {
+  if (bytes > std::numeric_limits<std::size_t>::max() - (sizeof(void*) + m_alignment - 1)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot align an allocation of {} bytes to {}", bytes, m_alignment));
+  }
+
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
-- 
2.43.0


From 0ac18a5a826c7b01eb5b4790c58b1214c8a2aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 10/29] fix: QuickPool coalesce must not recurse without end

do_coalesce() was entered whenever the free map held two chunks, even if at most one
block was releasable: with partially used blocks in the pool and a heuristic such as
blocks_releasable(1) it released and re-allocated the same block and deallocate()
called it again, until the stack overflowed. Use the same test as DynamicSizePool:
there is something to merge only if more than one block is releasable.
---
 src/umpire/strategy/QuickPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..80554c5 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -330,7 +330,7 @@ void QuickPool::coalesce() noexcept
 
 void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 {
-  if (m_size_map.size() > 1) {
+  if (m_releasable_blocks > 1) {
     UMPIRE_LOG(Debug, "()");
     release();
     std::size_t size_post{getActualSize()};
-- 
2.43.0


From d7c932ca5cd1ff0a31ae723943495d245f5a3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 11/29] fix: removeAlias of a resource that was not created yet

isAllocator() is true for the name of a resource that does not exist yet, the lookup
then returned end() and was dereferenced.
---
 src/umpire/ResourceManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..e9318f8 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -300,7 +300,7 @@ void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
   }
 
   auto a = m_allocators_by_name.find(name);
-  if (a->second->getName().compare(name) == 0) {
+  if (a == m_allocators_by_name.end() || a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
 
-- 
2.43.0


From de35b0bbd50e19a85b9671e600b3520909aeab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 12/29] fix: register resource X::0 under X

The base name was cut one character short (DEVICE::0 was registered as DEVIC). An
existing allocator keeps its name.
---
 src/umpire/ResourceManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index e9318f8..4147dd7 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -173,8 +173,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     m_allocators_by_name["DEVICE::0"] = allocator.get();
   }
   if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::") - 1)};
-    m_allocators_by_name[base_name] = allocator.get();
+    std::string base_name{name.substr(0, name.find("::"))};
+    m_allocators_by_name.insert({base_name, allocator.get()});
   }
   if (name.find("::") == std::string::npos) {
     m_memory_resources[resource::string_to_resource(name)] = allocator.get();
-- 
2.43.0


From 9d24db91133716423b15f65d2a245000ebf7cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 13/29] fix: copy must not read past the end of the source
 allocation

An explicit size was checked against the destination only.
---
 src/umpire/ResourceManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 4147dd7..53856cf 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -405,6 +405,10 @@ void ResourceManager::copy(void* dst_ptr, void* src_ptr, std::size_t size)
         .tag("replay", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy over the end of source: {} -> {}", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("Not enough space in destination to copy {} bytes into {} bytes", size, dst_size));
@@ -451,6 +455,10 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::copy(voi
         .tag("async", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy over the end of source: {} -> {}", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));
   }
-- 
2.43.0


From 3496a0fc1e1fef6c630ccf78b34e1572cda9e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 14/29] fix: host reallocate must keep the statistics and the
 record on failure

The current size of the allocator was not adjusted to the new size, so that freeing
the block afterwards made it drift or wrap; when ::realloc failed the record of the
still valid block was lost; the strategy was read from the record after it had been
removed.
---
 src/umpire/op/HostReallocateOperation.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..f189154 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -36,11 +36,18 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      ResourceManager::getInstance().registerAllocation(current_ptr, old_record);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    auto strategy = old_record.strategy;
+    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, strategy});
+
+    strategy->m_current_size += new_size - old_size;
+    if (strategy->m_current_size > strategy->m_high_watermark) {
+      strategy->m_high_watermark = strategy->m_current_size;
+    }
   }
 }
 
-- 
2.43.0


From fdbf82f4a146929ba9e2fc632cf946339db63671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 15/29] fix: relative_fragmentation did not terminate

The loop never advanced its iterators; an empty vector was advanced past its end.
---
 src/umpire/util/allocation_statistics.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..11a5052 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -15,6 +15,9 @@ namespace util {
 
 float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
+  if (recs.empty())
+    return 0.0f;
+
   auto r1 = recs.begin();
   auto r2 = recs.begin();
   ++r2;
@@ -24,6 +27,8 @@ float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
     const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
+    ++r1;
+    ++r2;
   }
 
   return 1.0f - static_cast<float>(largest_free_space) / (total_free_space + std::numeric_limits<float>::epsilon());
-- 
2.43.0


From 6311aa1ea606e66978bcb1a0762f34869a91fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 16/29] fix: TypedAllocator must reject element counts whose
 size overflows

sizeof(T) * size wrapped and a short block was returned.
---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..13d62b7 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} elements of {} bytes", size, sizeof(T)));
+  }
+
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From ed36630618a6fa2fa970b233c8e2f1ac42bd4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 17/29] fix: FixedMallocPool writes past a freed object smaller
 than size_t

Freeing into a full pool stored an 8-byte link although links are read as unsigned
int; with objects of 4 bytes the neighbouring live object was overwritten.
---
 src/umpire/util/FixedMallocPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..a74597a 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -112,7 +112,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From b2c4cb6453900e300a264b0d616ae398420903dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 18/29] fix: MemoryMap::insert(Key, const Value&) returned the
 inverse of what it documents

The flag said false when the entry was added.
---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..1cc7242 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From ad06dcc8a77923e430d943f143b70fbee45821b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 19/29] fix: MemoryMap iterator continued at the wrong position
 after assignment

operator++ trusted the internal judy position when the iterator's address was the last
to move it; after saved = it; ++it; it = saved; ++it; it skipped an entry. The same
happened to a new iterator created at the address of an old one.
---
 src/umpire/util/MemoryMap.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 1cc7242..c89ad1b 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -266,8 +266,8 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator++()
 {
-  // Check whether this object was not the last to set the internal judy state
-  if (m_pair.first && m_map->m_oper != reinterpret_cast<uintptr_t>(this)) {
+  // The internal judy state may belong to another iterator, or to a value this one held before
+  if (m_pair.first) {
     // Seek m_array internal position
     judy_slot(m_map->m_array, reinterpret_cast<const unsigned char*>(&m_pair.first), judy_max);
   }
-- 
2.43.0


From a501e2533d4f8c8982c3afaa05469c7ba43064b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 20/29] fix: NullMemoryResource::deallocate read the size after
 erasing it

The freed map entry had been overwritten by the pool's free list, so that most of the
reservation was never unmapped.
---
 src/umpire/resource/NullMemoryResource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 02de928..5723462 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -48,14 +48,14 @@ void NullMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   UMPIRE_LOG(Debug, "(ptr=" << ptr << ")");
 
   auto iter = m_size_map.find(ptr);
-  auto size = iter->second;
+  auto size = *iter->second;
 
   m_size_map.erase(ptr);
 
 #if !defined(_MSC_VER)
-  munmap(ptr, *size);
+  munmap(ptr, size);
 #else
-  VirtualFree(ptr, *size, MEM_RELEASE);
+  VirtualFree(ptr, size, MEM_RELEASE);
 #endif
 }
 
-- 
2.43.0


From b94816da165ceddf59bdfc5d8073c97d2a9df12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 21/29] fix: FileMemoryResource leaked a file descriptor when
 ftruncate or mmap failed

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..4fbc7af 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -75,6 +75,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -86,6 +87,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From 9e3c5fdfc2b440219dc7d68743104300dc39ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:17 +0000
Subject: [PATCH 22/29] fix: judy_slot reported an absent key as present

An unused slot of a linear node has key 0, so looking up an absent key whose remaining bytes are zero (for example an
address ending in 00 once a radix node exists) returned the unused cell. MemoryMap::find then returned an iterator other
than end() and MemoryMap::erase dereferenced a null value.
---
 src/tpl/umpire/judy/judy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index 0f59149..c5b8ab6 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -520,7 +520,8 @@ JudySlot * judy_slot( Judy * judy, const unsigned char * buff, unsigned int max
                     // is this a leaf?
 
                     if( (!judy->depth && !( value & 0xFF )) || ( judy->depth && depth == judy->depth ) ) {
-                        return &node[-slot - 1];
+                        // an unused slot has key 0 as well
+                        return node[-slot - 1] ? &node[-slot - 1] : NULL;
                     }
 
                     next = node[-slot - 1];
-- 
2.43.0


From 10641be5e4b31b1dbd739b3c81390da00fe2cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:17 +0000
Subject: [PATCH 23/29] fix: a new OutputBuffer must not use uninitialised
 stream pointers

Writing to, syncing or destroying an OutputBuffer on which a stream was never set used indeterminate pointers.
---
 src/umpire/util/OutputBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/OutputBuffer.hpp b/src/umpire/util/OutputBuffer.hpp
index 13bd40f..ef62364 100644
--- a/src/umpire/util/OutputBuffer.hpp
+++ b/src/umpire/util/OutputBuffer.hpp
@@ -25,8 +25,8 @@ class OutputBuffer : public std::streambuf {
   int sync() override;
 
  private:
-  std::streambuf* d_console_stream;
-  std::streambuf* d_file_stream;
+  std::streambuf* d_console_stream{nullptr};
+  std::streambuf* d_file_stream{nullptr};
 };
 
 } // end of namespace util
-- 
2.43.0


From a5fef59f39efe7de970d09683bc5838de1c5a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 24/29] fix: QuickPool: do not terminate when the coalescing
 allocation fails

---
 src/umpire/strategy/QuickPool.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 80554c5..cf5c86e 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -339,8 +339,13 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-      auto ptr = allocate(alloc_size);
-      deallocate(ptr, alloc_size);
+      try {
+        auto ptr = allocate(alloc_size);
+        deallocate(ptr, alloc_size);
+      } catch (...) {
+        // Coalescing is an optimization: keep the (consistent) pool as it is.
+        UMPIRE_LOG(Error, "Could not allocate " << alloc_size << " bytes, coalesce abandoned.");
+      }
     }
   }
 }
-- 
2.43.0


From 50a8fc2ee65b63b4f1c83844da58a9e08eef5c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:07 +0000
Subject: [PATCH 25/29] fix: DynamicSizePool: deallocate does not throw when
 the coalescing allocation fails

---
 src/umpire/strategy/DynamicSizePool.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..83ca8e1 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -273,7 +273,14 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
     UMPIRE_LOG(Debug, "Allocator " << this << " coalescing to " << size << " bytes from " << getFreeBlocks()
                                    << " free blocks\n");
     freeReleasedBlocks();
-    void *ptr = allocate(size);
+    void *ptr{nullptr};
+    try {
+      ptr = allocate(size);
+    } catch (...) {
+      // Coalescing is an optimization: keep the (consistent) pool as it is.
+      UMPIRE_LOG(Error, "Could not allocate " << size << " bytes, coalesce abandoned.");
+      return;
+    }
     deallocate(ptr);
   }
 
-- 
2.43.0


From 75dde693177e70da2df2a9ce850697af08458344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:17 +0000
Subject: [PATCH 26/29] fix: makeResource left a dangling name behind when the
 resource type is unknown

---
 src/umpire/ResourceManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 53856cf..be1f345 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -168,6 +168,9 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
   });
 
   int id{allocator->getId()};
+  if (name.find("::") == std::string::npos) {
+    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  }
   m_allocators_by_name[name] = allocator.get();
   if (name == "DEVICE") {
     m_allocators_by_name["DEVICE::0"] = allocator.get();
@@ -176,9 +179,6 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     std::string base_name{name.substr(0, name.find("::"))};
     m_allocators_by_name.insert({base_name, allocator.get()});
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
-  }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
 
-- 
2.43.0


From 338af4fc9f6faf373196f7113298d5300c18b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:15 +0000
Subject: [PATCH 27/29] fix: NullMemoryResource throws when its mapping fails
 instead of returning MAP_FAILED

---
 src/umpire/resource/NullMemoryResource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 5723462..1f4c7fe 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -9,10 +9,13 @@
 
 #include "umpire/resource/NullMemoryResource.hpp"
 
+#include <cerrno>
+#include <cstring>
 #include <memory>
 #include <sstream>
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 #if !defined(_MSC_VER)
 #include <sys/mman.h>
@@ -32,6 +35,9 @@ void* NullMemoryResource::allocate(std::size_t bytes)
 {
 #if !defined(_MSC_VER)
   void* ptr{mmap(NULL, bytes, PROT_NONE, (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE), -1, 0)};
+  if (ptr == MAP_FAILED) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("mmap( bytes = {} ) failed: {}", bytes, strerror(errno)));
+  }
 #else
   void* ptr{VirtualAlloc(NULL, bytes, MEM_RESERVE, PAGE_NOACCESS)};
 #endif
-- 
2.43.0


From c2c9bdf6751f421e9e8b0b34353c7f2106c76ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:15 +0000
Subject: [PATCH 28/29] fix: FileMemoryResource forgets an unmapped allocation
 when its file cannot be removed

---
 src/umpire/resource/FileMemoryResource.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 4fbc7af..f5f31fb 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -124,13 +124,14 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   ::close(m_filefd[iter->second->first.c_str()]);
   m_filefd.erase(iter->second->first.c_str());
 #endif
+  // Remove Information about file in m_size_map, the memory is gone even if the file cannot be removed
+  const std::string file_name{iter->second->first};
+  m_size_map.erase(iter->first);
+
   // Remove File
-  if (remove(iter->second->first.c_str()) < 0) {
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("remove of file {} failed: {}", iter->second->first.c_str(), strerror(errno)));
+  if (remove(file_name.c_str()) < 0) {
+    UMPIRE_ERROR(runtime_error, fmt::format("remove of file {} failed: {}", file_name, strerror(errno)));
   }
-  // Remove Information about file in m_size_map
-  m_size_map.erase(iter->first);
 }
 
 std::size_t FileMemoryResource::getCurrentSize() const noexcept
-- 
2.43.0


From 9cc95ff6c98956ed2167098947ae7faecc731575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:17 +0000
Subject: [PATCH 29/29] fix: DynamicPoolList 100 percent heuristic looks at the
 releasable size like QuickPool, not at a statistic that is zero for untracked
 pools

---
 src/umpire/strategy/DynamicPoolList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicPoolList.cpp b/src/umpire/strategy/DynamicPoolList.cpp
index 0dd48d5..fea41a1 100644
--- a/src/umpire/strategy/DynamicPoolList.cpp
+++ b/src/umpire/strategy/DynamicPoolList.cpp
@@ -160,7 +160,9 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable(int p
   if (percentage == 0) {
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
-    return [=](const strategy::DynamicPoolList& pool) { return pool.getCurrentSize() == 0 ? pool.getActualSize() : 0; };
+    return [=](const strategy::DynamicPoolList& pool) {
+      return pool.getActualSize() == pool.getReleasableSize() ? pool.getActualSize() : 0;
+    };
   } else {
     float f = (float)((float)percentage / (float)100.0);
     return [=](const strategy::DynamicPoolList& pool) {
@@ -182,7 +184,7 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable_hwm(i
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
     return [=](const strategy::DynamicPoolList& pool) {
-      return pool.getCurrentSize() == 0 ? pool.getAlignedHighwaterMark() : 0;
+      return pool.getActualSize() == pool.getReleasableSize() ? pool.getAlignedHighwaterMark() : 0;
     };
   } else {
     float f = (float)((float)percentage / (float)100.0);
-- 
2.43.0

