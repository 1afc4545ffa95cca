From 5565a523803df002d9c13ff0caf5c7546b5d07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:36 +0000
Subject: [PATCH 01/59] fix: do not count an internal allocation that failed

allocate_internal and allocate_named_internal updated the statistics before
calling allocate, so a refused request left the current size, allocation count
and high watermark of the parent too large forever.
---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..fcc5796 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ret{allocate(bytes)};
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ret;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ret{allocate_named(name, bytes)};
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ret;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From 6cbf65e03017cd1003455d55bb185c27b22c47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:36 +0000
Subject: [PATCH 02/59] fix: QuickPool coalesces only when more than one block
 is releasable

do_coalesce looked at the number of free chunks, which includes chunks of
blocks that are partly in use. Freeing the block it had just coalesced then
satisfied the heuristic again, and do_coalesce and deallocate called each
other until the stack overflowed.
---
 src/umpire/strategy/QuickPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..80554c5 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -330,7 +330,7 @@ void QuickPool::coalesce() noexcept
 
 void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 {
-  if (m_size_map.size() > 1) {
+  if (m_releasable_blocks > 1) {
     UMPIRE_LOG(Debug, "()");
     release();
     std::size_t size_post{getActualSize()};
-- 
2.43.0


From 75991102e8e17776d58914df792377dadba60ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:36 +0000
Subject: [PATCH 03/59] fix: a parent that refuses memory while a pool
 coalesces is not fatal

Coalescing gives blocks back and asks for one larger block. When the parent
refused that, QuickPool terminated the program (do_coalesce is noexcept) and
DynamicPoolList::deallocate threw although the memory had been freed.
---
 src/umpire/strategy/DynamicSizePool.hpp | 8 +++++++-
 src/umpire/strategy/QuickPool.cpp       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..fa5c6aa 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -273,7 +273,13 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
     UMPIRE_LOG(Debug, "Allocator " << this << " coalescing to " << size << " bytes from " << getFreeBlocks()
                                    << " free blocks\n");
     freeReleasedBlocks();
-    void *ptr = allocate(size);
+    void *ptr{nullptr};
+    try {
+      ptr = allocate(size);
+    } catch (...) {
+      UMPIRE_LOG(Error, "Could not reallocate " << size << " bytes while coalescing.");
+      return;
+    }
     deallocate(ptr);
   }
 
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 80554c5..580fed9 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -339,7 +339,13 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-      auto ptr = allocate(alloc_size);
+      void* ptr{nullptr};
+      try {
+        ptr = allocate(alloc_size);
+      } catch (...) {
+        UMPIRE_LOG(Error, "Could not reallocate " << alloc_size << " bytes while coalescing.");
+        return;
+      }
       deallocate(ptr, alloc_size);
     }
   }
-- 
2.43.0


From 6426b1580d544ab2bcf33b7b5155e5b8d6ef7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:43 +0000
Subject: [PATCH 04/59] fix: FixedPool and MixedPool constructors report a
 parent's refusal

Both constructors allocate their first blocks but were noexcept, so creating
such a pool over an exhausted parent terminated the program.
---
 src/umpire/strategy/FixedPool.cpp | 2 +-
 src/umpire/strategy/FixedPool.hpp | 2 +-
 src/umpire/strategy/MixedPool.cpp | 2 +-
 src/umpire/strategy/MixedPool.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..5c59b56 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -38,7 +38,7 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
 }
 
 FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-                     const std::size_t objects_per_pool) noexcept
+                     const std::size_t objects_per_pool)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "FixedPool"},
       m_strategy{allocator.getAllocationStrategy()},
       m_obj_bytes{object_bytes},
diff --git a/src/umpire/strategy/FixedPool.hpp b/src/umpire/strategy/FixedPool.hpp
index cd9d3ce..1021b56 100644
--- a/src/umpire/strategy/FixedPool.hpp
+++ b/src/umpire/strategy/FixedPool.hpp
@@ -39,7 +39,7 @@ class FixedPool : public AllocationStrategy {
    * if so.
    */
   FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-            const std::size_t objects_per_pool = 64 * sizeof(int) * 8) noexcept;
+            const std::size_t objects_per_pool = 64 * sizeof(int) * 8);
 
   ~FixedPool();
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index 020d0b5..adba672 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -22,7 +22,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
                      std::size_t largest_fixed_obj_size, std::size_t max_initial_fixed_pool_size,
                      std::size_t fixed_size_multiplier, const std::size_t quick_pool_initial_alloc_size,
                      const std::size_t quick_pool_min_alloc_size, const std::size_t quick_pool_align_bytes,
-                     PoolCoalesceHeuristic<QuickPool> should_coalesce) noexcept
+                     PoolCoalesceHeuristic<QuickPool> should_coalesce)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "MixedPool"},
       m_map{},
       m_fixed_pool_map{},
diff --git a/src/umpire/strategy/MixedPool.hpp b/src/umpire/strategy/MixedPool.hpp
index 8f9bc5c..d5bbc1f 100644
--- a/src/umpire/strategy/MixedPool.hpp
+++ b/src/umpire/strategy/MixedPool.hpp
@@ -53,7 +53,7 @@ class MixedPool : public AllocationStrategy {
             const std::size_t quick_pool_initial_alloc_size = (512 * 1024 * 1024),
             const std::size_t quick_pool_min_alloc_size = (1 * 1024 * 1024),
             const std::size_t quick_pool_align_bytes = 16,
-            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100)) noexcept;
+            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100));
 
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
-- 
2.43.0


From 5e17f0da6d601dab50097803cc5e6b9e8122bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:43 +0000
Subject: [PATCH 05/59] fix: FixedPool::release reduces the actual size

The blocks given back were still counted, so the actual size grew with every
release and refill.
---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 5c59b56..4249ef3 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From 0196f0b2b8d385d56f3b310f01ff0cb291e29f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:43 +0000
Subject: [PATCH 06/59] fix: SizeLimiter keeps its capacity when the parent
 refuses

The bytes of a request the parent refused stayed accounted forever, and a
request close to SIZE_MAX wrapped the sum and bypassed the limit.
---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..59385a5 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit || m_total_size > m_size_limit - bytes) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ret{m_allocator->allocate_internal(bytes)};
+  m_total_size += bytes;
+
+  return ret;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From a06f12f2e91bb9ee74f14e1d0657f8077668d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:43 +0000
Subject: [PATCH 07/59] fix: SlotPool reports full slots and keeps a slot the
 parent refused to fill

A request that fits no slot returned a null pointer, which was counted in the
statistics before being rejected. A refused parent allocation left the slot
marked as used with no memory behind it.
---
 src/umpire/strategy/SlotPool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..a98645f 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -60,13 +60,17 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
   }
 
+  if (!ptr) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("No slot available for an allocation of {} bytes", bytes));
+  }
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
   return ptr;
 }
-- 
2.43.0


From 7fcb7aa5fa879cad3665c02f2cd7fd5201b66ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:43 +0000
Subject: [PATCH 08/59] fix: a refused MonotonicAllocationStrategy request uses
 no capacity

The size was advanced before it was checked, so one request that did not fit
made every later one fail, and a request close to SIZE_MAX wrapped around and
was granted.
---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..5807771 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
-  void* ret = static_cast<char*>(m_block) + m_size;
-  m_size += bytes;
-
-  if (m_size > m_capacity) {
+  if (bytes > m_capacity - m_size) {
     UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
+                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", bytes, m_capacity - m_size));
   }
 
+  void* ret = static_cast<char*>(m_block) + m_size;
+  m_size += bytes;
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From 77fbb338b9e87f772704b4e1d7d798eba4045500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:32 +0000
Subject: [PATCH 09/59] fix: NamingShim gives memory back with its size

The parent was told that zero bytes were freed, so its current size never went
down and a size limit below the shim filled up for good.
---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From 363c20d8a2a761a68e89ce8bfc45efed728329f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:32 +0000
Subject: [PATCH 10/59] fix: out-of-memory errors of named allocations name
 allocator and size

Only unnamed allocations filled in the allocator id and the requested size.
---
 src/umpire/Allocator.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index 1b3e7c7..c8e4038 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -76,7 +76,13 @@ inline void* Allocator::do_named_allocate(const std::string& name, std::size_t b
   if (0 == bytes) {
     ret = allocateNull();
   } else {
-    ret = m_allocator->allocate_named(name, bytes);
+    try {
+      ret = m_allocator->allocate_named(name, bytes);
+    } catch (umpire::out_of_memory_error& e) {
+      e.set_allocator_id(this->getId());
+      e.set_requested_size(bytes);
+      throw;
+    }
   }
 
   if (m_tracking) {
-- 
2.43.0


From 13f902719e14ee258aa6904b04e2440e8df66163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:32 +0000
Subject: [PATCH 11/59] fix: coalescing a pool does not raise its aligned high
 watermark

The block a pool takes while coalescing went through allocate and was counted
as if the application had used it, so the aligned high watermark, and with it
the size the high watermark heuristics coalesce to, could exceed what was ever
allocated.
---
 src/umpire/strategy/DynamicSizePool.hpp | 2 ++
 src/umpire/strategy/QuickPool.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index fa5c6aa..abb38bb 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -273,6 +273,7 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
     UMPIRE_LOG(Debug, "Allocator " << this << " coalescing to " << size << " bytes from " << getFreeBlocks()
                                    << " free blocks\n");
     freeReleasedBlocks();
+    const std::size_t aligned_highwatermark{m_aligned_highwatermark};
     void *ptr{nullptr};
     try {
       ptr = allocate(size);
@@ -280,6 +281,7 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
       UMPIRE_LOG(Error, "Could not reallocate " << size << " bytes while coalescing.");
       return;
     }
+    m_aligned_highwatermark = aligned_highwatermark;
     deallocate(ptr);
   }
 
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 580fed9..ac3d04d 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -337,6 +337,7 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 
     if (size_post < suggested_size) {
       std::size_t alloc_size{suggested_size - size_post};
+      const std::size_t aligned_highwatermark{m_aligned_highwatermark};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
       void* ptr{nullptr};
@@ -346,6 +347,7 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
         UMPIRE_LOG(Error, "Could not reallocate " << alloc_size << " bytes while coalescing.");
         return;
       }
+      m_aligned_highwatermark = aligned_highwatermark;
       deallocate(ptr, alloc_size);
     }
   }
-- 
2.43.0


From e25aa381ff048d0445d96eb290ab9a529e94656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:16 +0000
Subject: [PATCH 12/59] fix: DynamicPoolList percent_releasable(100) works
 without tracking

The heuristic compared the current size with zero, which is always true for a
pool created without introspection, so such a pool coalesced on every free
while allocations were live. Compare the releasable with the actual size, as
QuickPool does.
---
 src/umpire/strategy/DynamicPoolList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicPoolList.cpp b/src/umpire/strategy/DynamicPoolList.cpp
index 0dd48d5..fea41a1 100644
--- a/src/umpire/strategy/DynamicPoolList.cpp
+++ b/src/umpire/strategy/DynamicPoolList.cpp
@@ -160,7 +160,9 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable(int p
   if (percentage == 0) {
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
-    return [=](const strategy::DynamicPoolList& pool) { return pool.getCurrentSize() == 0 ? pool.getActualSize() : 0; };
+    return [=](const strategy::DynamicPoolList& pool) {
+      return pool.getActualSize() == pool.getReleasableSize() ? pool.getActualSize() : 0;
+    };
   } else {
     float f = (float)((float)percentage / (float)100.0);
     return [=](const strategy::DynamicPoolList& pool) {
@@ -182,7 +184,7 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable_hwm(i
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
     return [=](const strategy::DynamicPoolList& pool) {
-      return pool.getCurrentSize() == 0 ? pool.getAlignedHighwaterMark() : 0;
+      return pool.getActualSize() == pool.getReleasableSize() ? pool.getAlignedHighwaterMark() : 0;
     };
   } else {
     float f = (float)((float)percentage / (float)100.0);
-- 
2.43.0


From f863b8e1f1157c5dfbf664d92d66a571b12759bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:09 +0000
Subject: [PATCH 13/59] fix: pools refuse requests whose rounded size is not
 representable

Rounding a request close to SIZE_MAX up to the alignment (or adding the
alignment to it) wrapped around, and the pool returned a tiny block.
---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..24dc0f0 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_aligned_allocation_INL
 #define UMPIRE_aligned_allocation_INL
 
+#include <limits>
+
 #include "umpire/util/allocation_statistics.hpp"
+#include "umpire/util/error.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
 
@@ -17,11 +20,19 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() - (m_alignment - 1)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot align a request of {} bytes", size));
+  }
+
   return size + (m_alignment - 1) - (size - 1) % m_alignment;
 }
 
 inline void* AlignedAllocation::aligned_allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() - m_alignment) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot align a request of {} bytes", size));
+  }
+
   std::size_t total_bytes{ size + m_alignment };
   uintptr_t ptr{ reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes)) };
 
-- 
2.43.0


From 2990e13102d50a567914cd0f7c07e35f19daf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:09 +0000
Subject: [PATCH 14/59] fix: AlignedAllocator refuses requests whose padded
 size is not representable

Adding the padding to a request close to SIZE_MAX wrapped around, and the
block returned was smaller than requested.
---
 src/umpire/strategy/AlignedAllocator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..9741c32 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -6,6 +6,8 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/AlignedAllocator.hpp"
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
 
 namespace umpire {
@@ -30,6 +32,10 @@ AlignedAllocator::AlignedAllocator(const std::string& name, int id, Allocator al
 
 void* AlignedAllocator::allocate(std::size_t bytes)
 {
+  if (bytes > std::numeric_limits<std::size_t>::max() - (sizeof(void*) + m_alignment - 1)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot align a request of {} bytes", bytes));
+  }
+
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
-- 
2.43.0


From 1b8dde07b63c8b6e0db38a843838d4ca981577c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:09 +0000
Subject: [PATCH 15/59] fix: FixedPool refuses requests larger than its objects

With assertions disabled a request larger than the object size was answered
with a block of the object size.
---
 src/umpire/strategy/FixedPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 4249ef3..e3e4096 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -127,6 +127,11 @@ void* FixedPool::allocate(std::size_t bytes)
   // (default = 0)
   UMPIRE_ASSERT(!bytes || bytes == m_obj_bytes);
 
+  if (bytes > m_obj_bytes) {
+    UMPIRE_ERROR(runtime_error,
+                 fmt::format("FixedPool::allocate(size={}): objects have only {} bytes.", bytes, m_obj_bytes));
+  }
+
   void* ptr = nullptr;
 
   for (auto it = m_pool.rbegin(); it != m_pool.rend(); ++it) {
-- 
2.43.0


From d65d673e4a1b2fa0e4299778aa3ef7990d307ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:09 +0000
Subject: [PATCH 16/59] fix: TypedAllocator refuses counts whose size is not
 representable

The multiplication by the element size wrapped around, and fewer elements than
requested were allocated.
---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..187e7e3 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} objects of {} bytes", size, sizeof(T)));
+  }
+
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From 8d5449fbb06fef6728dcfb7feddb952f3582302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:19 +0000
Subject: [PATCH 17/59] fix: MemoryMap::ConstIterator can be post-incremented

---
 src/umpire/util/MemoryMap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..7f626ca 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -293,7 +293,7 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const> MemoryMap<V>::Iterator_<Const>::operator++(int)
 {
-  Iterator tmp{*this};
+  Iterator_ tmp{*this};
   ++(*this);
   return tmp;
 }
-- 
2.43.0


From 058b01cb243d4788286fcc6fc697f0a87169a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:05 +0000
Subject: [PATCH 18/59] fix: MemoryMap::insert(ptr, const Value&) reports
 whether it inserted

---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 7f626ca..d69885a 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From e3cdbfa666ab84bce7b6bcf9222ed0a9ef87d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:05 +0000
Subject: [PATCH 19/59] fix: FixedMallocPool writes its free list link within
 the freed object

---
 src/umpire/util/FixedMallocPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..a74597a 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -112,7 +112,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From 2212edd149d7f45efcf6f0ecc0560a0fa826a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:44 +0000
Subject: [PATCH 20/59] fix: MemoryMap::findOrBefore returns end() when there
 is no preceding entry

---
 src/umpire/util/MemoryMap.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index d69885a..4a87f28 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -105,7 +105,13 @@ typename MemoryMap<V>::Key MemoryMap<V>::doFindOrBefore(Key ptr) const noexcept
   // If the ptrs do not match, or the key does not exist, get the previous entry
   if (parent_ptr != ptr || !value) {
     m_last = judy_prv(m_array);
-    judy_key(m_array, reinterpret_cast<unsigned char*>(&parent_ptr), judy_max);
+
+    if (m_last) {
+      judy_key(m_array, reinterpret_cast<unsigned char*>(&parent_ptr), judy_max);
+    } else {
+      // There is no previous entry
+      parent_ptr = nullptr;
+    }
   }
   UMPIRE_LOG(Debug, "returning " << parent_ptr);
 
-- 
2.43.0


From d2c2cc1b0cec037a7ab0645ad513234bb9b44d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:23 +0000
Subject: [PATCH 21/59] fix: judy_prv and judy_last return the cell of the key
 they found

---
 src/tpl/umpire/judy/judy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index 0f59149..b27b4cc 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -905,7 +905,7 @@ JudySlot * judy_last( Judy * judy, JudySlot next, unsigned int off, unsigned int
                         next = inner[slot & 0x0F];
                         if( next ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 break;
                             }
@@ -1091,7 +1091,7 @@ JudySlot * judy_prv( Judy * judy ) {
                     if( inner ) {
                         if( inner[slot & 0x0F] ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 return judy_last( judy, inner[slot & 0x0F], off + 1, depth );
                             }
-- 
2.43.0


From c466366f55ab82d31e4b0ad23899a088a69c43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:49 +0000
Subject: [PATCH 22/59] fix: copied MemoryMap iterators do not use a stale
 position

---
 src/umpire/util/MemoryMap.hpp | 11 +++++++++++
 src/umpire/util/MemoryMap.inl | 28 ++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/umpire/util/MemoryMap.hpp b/src/umpire/util/MemoryMap.hpp
index 7dee291..4ae08f0 100644
--- a/src/umpire/util/MemoryMap.hpp
+++ b/src/umpire/util/MemoryMap.hpp
@@ -58,9 +58,13 @@ class MemoryMap {
     Iterator_(Map* map, iterator_begin);
     Iterator_(Map* map, iterator_end);
 
+    Iterator_(const Iterator_& other);
+
     template <bool OtherConst>
     Iterator_(const Iterator_<OtherConst>& other);
 
+    Iterator_& operator=(const Iterator_& other);
+
     Reference operator*();
     Pointer operator->();
     Iterator_& operator++();
@@ -73,6 +77,13 @@ class MemoryMap {
     bool operator!=(const Iterator_<OtherConst>& other) const;
 
    private:
+    template <bool OtherConst>
+    friend class Iterator_;
+
+    // The internal judy state is not at the position of this object, even if
+    // an object at this address was the last to set it
+    void resetOper();
+
     Map* m_map;
     Content m_pair;
   };
diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4a87f28..70835ff 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -247,11 +247,39 @@ MemoryMap<V>::Iterator_<Const>::Iterator_(Map* map, iterator_end)
 {
 }
 
+template <typename V>
+template <bool Const>
+MemoryMap<V>::Iterator_<Const>::Iterator_(const Iterator_& other) : m_map{other.m_map}, m_pair{other.m_pair}
+{
+  resetOper();
+}
+
 template <typename V>
 template <bool Const>
 template <bool OtherConst>
 MemoryMap<V>::Iterator_<Const>::Iterator_(const Iterator_<OtherConst>& other) : m_map{other.m_map}, m_pair{other.m_pair}
 {
+  resetOper();
+}
+
+template <typename V>
+template <bool Const>
+typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator=(const Iterator_& other)
+{
+  m_map = other.m_map;
+  m_pair = other.m_pair;
+  resetOper();
+
+  return *this;
+}
+
+template <typename V>
+template <bool Const>
+void MemoryMap<V>::Iterator_<Const>::resetOper()
+{
+  if (m_map->m_oper == reinterpret_cast<uintptr_t>(this)) {
+    m_map->m_oper = 0;
+  }
 }
 
 template <typename V>
-- 
2.43.0


From 4b5ef1d66d1361698bcc727812f32175d06adb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:37 +0000
Subject: [PATCH 23/59] fix: judy_slot does not report an empty slot as a key

---
 src/tpl/umpire/judy/judy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index b27b4cc..fd95123 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -520,7 +520,11 @@ JudySlot * judy_slot( Judy * judy, const unsigned char * buff, unsigned int max
                     // is this a leaf?
 
                     if( (!judy->depth && !( value & 0xFF )) || ( judy->depth && depth == judy->depth ) ) {
-                        return &node[-slot - 1];
+                        if( node[-slot - 1] ) {    // occupied?
+                            return &node[-slot - 1];
+                        } else {
+                            return NULL;
+                        }
                     }
 
                     next = node[-slot - 1];
-- 
2.43.0


From ead028efac69db9f504dac022a67c38fa28b0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:18 +0000
Subject: [PATCH 24/59] fix: relative_fragmentation terminates

---
 src/umpire/util/allocation_statistics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..cfc4b16 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -15,6 +15,10 @@ namespace util {
 
 float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
+  if (recs.size() < 2) {
+    return 0.0f;
+  }
+
   auto r1 = recs.begin();
   auto r2 = recs.begin();
   ++r2;
@@ -24,6 +28,8 @@ float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
     const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
+    ++r1;
+    ++r2;
   }
 
   return 1.0f - static_cast<float>(largest_free_space) / (total_free_space + std::numeric_limits<float>::epsilon());
-- 
2.43.0


From b739a629f7bc31143cf127ca4c8d1463f2315656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:18 +0000
Subject: [PATCH 25/59] fix: ResourceManager::copy does not read past the
 source allocation

---
 src/umpire/ResourceManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..ddb409f 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -405,6 +405,10 @@ void ResourceManager::copy(void* dst_ptr, void* src_ptr, std::size_t size)
         .tag("replay", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from a source with {} bytes", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("Not enough space in destination to copy {} bytes into {} bytes", size, dst_size));
@@ -451,6 +455,10 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::copy(voi
         .tag("async", "true");
   });
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from a source with {} bytes", size, src_size));
+  }
+
   if (size > dst_size) {
     UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));
   }
-- 
2.43.0


From da823ce33cd580162f9555e3e9cf36f9e1a28123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:18 +0000
Subject: [PATCH 26/59] fix: removeAlias rejects the name of a resource that
 was not created yet

---
 src/umpire/ResourceManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ddb409f..665cdbf 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -300,7 +300,7 @@ void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
   }
 
   auto a = m_allocators_by_name.find(name);
-  if (a->second->getName().compare(name) == 0) {
+  if (a == m_allocators_by_name.end() || a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
 
-- 
2.43.0


From ed16999708ef4d3798a268c6fc12b88ede3844dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:18 +0000
Subject: [PATCH 27/59] fix: reallocating host memory keeps statistics and
 survives failure

---
 src/umpire/op/HostReallocateOperation.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..90b1304 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 
 #include "umpire/ResourceManager.hpp"
+#include "umpire/strategy/AllocationStrategy.hpp"
 #include "umpire/strategy/mixins/Inspector.hpp"
 #include "umpire/util/error.hpp"
 
@@ -32,15 +33,19 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
     allocator.deallocate(current_ptr);
   } else {
-    auto old_record = ResourceManager::getInstance().deregisterAllocation(current_ptr);
+    strategy::mixins::Inspector inspector;
+    auto strategy = new_allocation->strategy;
+    auto old_record = inspector.deregisterAllocation(current_ptr, strategy);
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      // the old allocation is still valid
+      inspector.registerAllocation(current_ptr, old_record.size, strategy, old_record.name);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    inspector.registerAllocation(*new_ptr, new_size, strategy);
   }
 }
 
-- 
2.43.0


From b698c0f6b45011749845d04595374fe409aaf38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 28/59] fix: only a resource named <base>::0 is registered
 under its base name

---
 src/umpire/ResourceManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 665cdbf..e2650cb 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -172,9 +172,11 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
   if (name == "DEVICE") {
     m_allocators_by_name["DEVICE::0"] = allocator.get();
   }
-  if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::") - 1)};
-    m_allocators_by_name[base_name] = allocator.get();
+  const std::string first_device{"::0"};
+  if (name.size() > first_device.size() &&
+      name.compare(name.size() - first_device.size(), first_device.size(), first_device) == 0) {
+    // keeps the base name if it is already registered
+    m_allocators_by_name.emplace(name.substr(0, name.size() - first_device.size()), allocator.get());
   }
   if (name.find("::") == std::string::npos) {
     m_memory_resources[resource::string_to_resource(name)] = allocator.get();
-- 
2.43.0


From 887d536a4ba014a8cc35efd9e7533598c28176a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 29/59] fix: a resource whose creation fails leaves no name
 behind

---
 src/umpire/ResourceManager.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index e2650cb..3b738d5 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -143,6 +143,13 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
 
   resource::MemoryResourceRegistry& registry{resource::MemoryResourceRegistry::getInstance()};
 
+  const bool is_base_resource{name.find("::") == std::string::npos};
+  resource::MemoryResourceType resource_type{resource::MemoryResourceType::Unknown};
+  if (is_base_resource) {
+    // raises an error for unknown names, so it has to happen before anything is registered
+    resource_type = resource::string_to_resource(name);
+  }
+
   if (name.find("DEVICE") != std::string::npos) {
     traits.id = resource::resource_to_device_id(name);
   }
@@ -178,8 +185,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     // keeps the base name if it is already registered
     m_allocators_by_name.emplace(name.substr(0, name.size() - first_device.size()), allocator.get());
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  if (is_base_resource) {
+    m_memory_resources[resource_type] = allocator.get();
   }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
-- 
2.43.0


From 28946db11711eec7e16725c1b702b300689d536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:11 +0000
Subject: [PATCH 30/59] fix: statistics shared by allocators of different
 threads are updated atomically

---
 src/umpire/strategy/AllocationStrategy.cpp | 33 +++++++++++++---------
 src/umpire/strategy/AllocationStrategy.hpp | 20 +++++++++++--
 src/umpire/strategy/mixins/Inspector.cpp   | 17 ++---------
 3 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index fcc5796..08c0d35 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -21,12 +21,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
   void* ret{allocate(bytes)};
 
-  m_current_size += bytes;
-  m_allocation_count++;
-
-  if (m_current_size > m_high_watermark) {
-    m_high_watermark = m_current_size;
-  }
+  countAllocation(bytes);
 
   return ret;
 }
@@ -40,24 +35,34 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
 {
   void* ret{allocate_named(name, bytes)};
 
-  m_current_size += bytes;
-  m_allocation_count++;
-
-  if (m_current_size > m_high_watermark) {
-    m_high_watermark = m_current_size;
-  }
+  countAllocation(bytes);
 
   return ret;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
 {
-  m_current_size -= size;
-  m_allocation_count--;
+  countDeallocation(size);
 
   deallocate(ptr, size);
 }
 
+void AllocationStrategy::countAllocation(std::size_t bytes) noexcept
+{
+  const std::size_t current{m_current_size.fetch_add(bytes) + bytes};
+  m_allocation_count.fetch_add(1);
+
+  std::size_t highest{m_high_watermark.load()};
+  while (current > highest && !m_high_watermark.compare_exchange_weak(highest, current)) {
+  }
+}
+
+void AllocationStrategy::countDeallocation(std::size_t bytes) noexcept
+{
+  m_current_size.fetch_sub(bytes);
+  m_allocation_count.fetch_sub(1);
+}
+
 const std::string& AllocationStrategy::getName() noexcept
 {
   return m_name;
diff --git a/src/umpire/strategy/AllocationStrategy.hpp b/src/umpire/strategy/AllocationStrategy.hpp
index 68495e7..8158379 100644
--- a/src/umpire/strategy/AllocationStrategy.hpp
+++ b/src/umpire/strategy/AllocationStrategy.hpp
@@ -7,6 +7,7 @@
 #ifndef UMPIRE_AllocationStrategy_HPP
 #define UMPIRE_AllocationStrategy_HPP
 
+#include <atomic>
 #include <cstddef>
 #include <memory>
 #include <ostream>
@@ -132,9 +133,22 @@ class AllocationStrategy {
 
   bool isTracked() const noexcept;
 
-  std::size_t m_current_size{0};
-  std::size_t m_high_watermark{0};
-  std::size_t m_allocation_count{0};
+  /*!
+   * \brief Account for a new allocation of the given size.
+   *
+   * Allocators used by different threads may share this AllocationStrategy as
+   * their parent, so the statistics are updated atomically.
+   */
+  void countAllocation(std::size_t bytes) noexcept;
+
+  /*!
+   * \brief Account for an allocation of the given size being freed.
+   */
+  void countDeallocation(std::size_t bytes) noexcept;
+
+  std::atomic<std::size_t> m_current_size{0};
+  std::atomic<std::size_t> m_high_watermark{0};
+  std::atomic<std::size_t> m_allocation_count{0};
 
  protected:
   void setTracking(bool) noexcept;
diff --git a/src/umpire/strategy/mixins/Inspector.cpp b/src/umpire/strategy/mixins/Inspector.cpp
index eca487a..9b752a6 100644
--- a/src/umpire/strategy/mixins/Inspector.cpp
+++ b/src/umpire/strategy/mixins/Inspector.cpp
@@ -16,24 +16,14 @@ namespace mixins {
 
 void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* s)
 {
-  s->m_current_size += size;
-  s->m_allocation_count++;
-
-  if (s->m_current_size > s->m_high_watermark) {
-    s->m_high_watermark = s->m_current_size;
-  }
+  s->countAllocation(size);
 
   ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s});
 }
 
 void Inspector::registerAllocation(void* ptr, std::size_t size, strategy::AllocationStrategy* s, const std::string& name)
 {
-  s->m_current_size += size;
-  s->m_allocation_count++;
-
-  if (s->m_current_size > s->m_high_watermark) {
-    s->m_high_watermark = s->m_current_size;
-  }
+  s->countAllocation(size);
 
   ResourceManager::getInstance().registerAllocation(ptr, {ptr, size, s, name});
 }
@@ -44,8 +34,7 @@ Inspector::deregisterAllocation(void* ptr, strategy::AllocationStrategy* s)
   auto record = ResourceManager::getInstance().deregisterAllocation(ptr);
 
   if (record.strategy == s) {
-    s->m_current_size -= record.size;
-    s->m_allocation_count--;
+    s->countDeallocation(record.size);
   } else {
     // Re-register the pointer and throw an error
     ResourceManager::getInstance().registerAllocation(ptr, {ptr, record.size, record.strategy, record.name});
-- 
2.43.0


From 72bf0d23091b88aaf660fb438aad8164972d8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:48 +0000
Subject: [PATCH 31/59] fix: the pool of zero-byte allocations, shared by all
 allocators, is locked

---
 src/umpire/strategy/mixins/AllocateNull.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/umpire/strategy/mixins/AllocateNull.cpp b/src/umpire/strategy/mixins/AllocateNull.cpp
index 12fa1f3..33c7e90 100644
--- a/src/umpire/strategy/mixins/AllocateNull.cpp
+++ b/src/umpire/strategy/mixins/AllocateNull.cpp
@@ -6,6 +6,8 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/mixins/AllocateNull.hpp"
 
+#include <mutex>
+
 #include "umpire/ResourceManager.hpp"
 #include "umpire/strategy/FixedPool.hpp"
 #include "umpire/util/Macros.hpp"
@@ -14,6 +16,13 @@ namespace umpire {
 namespace strategy {
 namespace mixins {
 
+namespace {
+
+// The pool of zero-byte allocations is shared by all allocators
+std::mutex s_zero_byte_mutex;
+
+} // end of anonymous namespace
+
 AllocateNull::AllocateNull() :
   m_zero_byte_pool{nullptr}
 {
@@ -25,6 +34,7 @@ void* AllocateNull::allocateNull()
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(s_zero_byte_mutex);
   return m_zero_byte_pool->allocate(1);
 }
 
@@ -34,6 +44,7 @@ bool AllocateNull::deallocateNull(void* ptr)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
 
+  std::lock_guard<std::mutex> lock(s_zero_byte_mutex);
   if (m_zero_byte_pool->pointerIsFromPool(ptr)) {
     m_zero_byte_pool->deallocate(ptr, 1);
     return true;
-- 
2.43.0


From 8b3f008fc46a2844df1a306e652006b88a1bf1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:48 +0000
Subject: [PATCH 32/59] fix: the registry of allocators is locked while it is
 read or changed

---
 src/umpire/ResourceManager.cpp | 14 ++++++++++++++
 src/umpire/ResourceManager.hpp |  3 ++-
 src/umpire/ResourceManager.inl |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 3b738d5..49e469b 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -137,6 +137,7 @@ Allocator ResourceManager::makeResource(const std::string& name)
 
 Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceTraits traits)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   if (m_allocators_by_name.find(name) != m_allocators_by_name.end()) {
     UMPIRE_ERROR(runtime_error, fmt::format("Allocator \"{}\" already exists, and cannot be re-created.", name));
   }
@@ -196,6 +197,7 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
 
 strategy::AllocationStrategy* ResourceManager::getAllocationStrategy(const std::string& name)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   resource::MemoryResourceRegistry& registry{resource::MemoryResourceRegistry::getInstance()};
   auto resource_names = registry.getResourceNames();
 
@@ -227,6 +229,7 @@ Allocator ResourceManager::getAllocator(const char* name)
 
 Allocator ResourceManager::getAllocator(resource::MemoryResourceType resource_type)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   UMPIRE_LOG(Debug, "(\"" << static_cast<std::size_t>(resource_type) << "\")");
 
   auto allocator = m_memory_resources.find(resource_type);
@@ -239,6 +242,7 @@ Allocator ResourceManager::getAllocator(resource::MemoryResourceType resource_ty
 
 Allocator ResourceManager::getAllocator(int id)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   UMPIRE_LOG(Debug, "(\"" << id << "\")");
 
   if (id < 0) {
@@ -260,6 +264,7 @@ Allocator ResourceManager::getAllocator(int id)
 
 Allocator ResourceManager::getDefaultAllocator()
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   UMPIRE_LOG(Debug, "");
 
   if (!m_default_allocator) {
@@ -279,6 +284,7 @@ std::vector<std::string> ResourceManager::getResourceNames()
 
 void ResourceManager::setDefaultAllocator(Allocator allocator) noexcept
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   UMPIRE_LOG(Debug, "(\"" << allocator.getName() << "\")");
 
   umpire::event::record([&](auto& event) {
@@ -294,6 +300,7 @@ void ResourceManager::setDefaultAllocator(Allocator allocator) noexcept
 
 void ResourceManager::addAlias(const std::string& name, Allocator allocator)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   if (isAllocator(name)) {
     UMPIRE_ERROR(runtime_error,
                  fmt::format("Allocator \"{}\" is already an alias for \"{}\"", name, getAllocator(name).getName()));
@@ -304,6 +311,7 @@ void ResourceManager::addAlias(const std::string& name, Allocator allocator)
 
 void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   if (!isAllocator(name)) {
     UMPIRE_ERROR(runtime_error, fmt::format("Allocator \"{}\" is not registered", name));
   }
@@ -329,6 +337,7 @@ Allocator ResourceManager::getAllocator(void* ptr)
 
 bool ResourceManager::isAllocator(const std::string& name) noexcept
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   resource::MemoryResourceRegistry& registry{resource::MemoryResourceRegistry::getInstance()};
   auto resource_names = registry.getResourceNames();
 
@@ -338,6 +347,7 @@ bool ResourceManager::isAllocator(const std::string& name) noexcept
 
 bool ResourceManager::isAllocator(int id) noexcept
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   return (m_allocators_by_id.find(id) != m_allocators_by_id.end());
 }
 
@@ -884,6 +894,7 @@ std::size_t ResourceManager::getSize(void* ptr) const
 
 strategy::AllocationStrategy* ResourceManager::findAllocatorForId(int id)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   auto allocator_i = m_allocators_by_id.find(id);
 
   if (allocator_i == m_allocators_by_id.end()) {
@@ -908,6 +919,7 @@ strategy::AllocationStrategy* ResourceManager::findAllocatorForPointer(void* ptr
 
 std::vector<std::string> ResourceManager::getAllocatorNames() const noexcept
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   std::vector<std::string> names;
   for (auto it = m_allocators_by_name.begin(); it != m_allocators_by_name.end(); ++it) {
     names.push_back(it->first);
@@ -919,6 +931,7 @@ std::vector<std::string> ResourceManager::getAllocatorNames() const noexcept
 
 std::vector<int> ResourceManager::getAllocatorIds() const noexcept
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   std::vector<int> ids;
   for (auto& it : m_allocators_by_id) {
     ids.push_back(it.first);
@@ -934,6 +947,7 @@ int ResourceManager::getNextId() noexcept
 
 std::string ResourceManager::getAllocatorInformation() const noexcept
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   std::ostringstream info;
 
   for (auto& it : m_allocators_by_name) {
diff --git a/src/umpire/ResourceManager.hpp b/src/umpire/ResourceManager.hpp
index f61d885..962e8a0 100644
--- a/src/umpire/ResourceManager.hpp
+++ b/src/umpire/ResourceManager.hpp
@@ -340,7 +340,8 @@ class ResourceManager {
 
   int m_id;
 
-  std::mutex m_mutex;
+  // Protects the registry of allocators
+  mutable std::recursive_mutex m_mutex;
 
   // Methods that need access to m_allocations to print/filter records
   friend void print_allocator_records(Allocator, std::ostream&);
diff --git a/src/umpire/ResourceManager.inl b/src/umpire/ResourceManager.inl
index 098d7d7..8af8cae 100644
--- a/src/umpire/ResourceManager.inl
+++ b/src/umpire/ResourceManager.inl
@@ -20,7 +20,7 @@ namespace umpire {
 template <typename Strategy, typename... Args>
 Allocator ResourceManager::makeAllocator(const std::string& name, Tracking tracked, Args&&... args)
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   std::unique_ptr<strategy::AllocationStrategy> allocator;
   bool is_tracked = (tracked == Tracking::Tracked) ? true : false;
 
-- 
2.43.0


From abe5272a52402397b0676dca52d13e69ac1e7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:56 +0000
Subject: [PATCH 33/59] fix: listing the allocation records locks the
 allocation map

---
 src/umpire/Umpire.cpp             |  7 ++-----
 src/umpire/util/AllocationMap.cpp | 26 +++++++++++++++++++++-----
 src/umpire/util/AllocationMap.hpp |  7 ++++++-
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index 76297c3..c22a878 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -52,11 +52,8 @@ std::vector<util::AllocationRecord> get_allocator_records(Allocator allocator)
   auto& rm = umpire::ResourceManager::getInstance();
   auto strategy = allocator.getAllocationStrategy();
 
-  std::vector<util::AllocationRecord> recs;
-  std::copy_if(rm.m_allocations.begin(), rm.m_allocations.end(), std::back_inserter(recs),
-               [strategy](const util::AllocationRecord& rec) { return rec.strategy == strategy; });
-
-  return recs;
+  return rm.m_allocations.getRecords(
+      [strategy](const util::AllocationRecord& rec) { return rec.strategy == strategy; });
 }
 
 bool pointer_overlaps(void* left_ptr, void* right_ptr)
diff --git a/src/umpire/util/AllocationMap.cpp b/src/umpire/util/AllocationMap.cpp
index 9b2008c..d1dc31f 100644
--- a/src/umpire/util/AllocationMap.cpp
+++ b/src/umpire/util/AllocationMap.cpp
@@ -6,6 +6,7 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/util/AllocationMap.hpp"
 
+#include <algorithm>
 #include <functional>
 #include <sstream>
 #include <string>
@@ -154,7 +155,7 @@ AllocationMap::AllocationMap() : m_block_pool{sizeof(RecordList::RecordBlock)},
 
 void AllocationMap::insert(void* ptr, AllocationRecord record)
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
   UMPIRE_LOG(Debug, "Inserting " << ptr);
 
@@ -175,7 +176,7 @@ void AllocationMap::insert(void* ptr, AllocationRecord record)
 
 const AllocationRecord* AllocationMap::find(void* ptr) const
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
   UMPIRE_LOG(Debug, "Searching for " << ptr);
 
@@ -225,7 +226,7 @@ const AllocationRecord* AllocationMap::doFindRecord(void* ptr) const noexcept
 
 const AllocationRecord* AllocationMap::findRecord(void* ptr) const noexcept
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
   // Call method
   return doFindRecord(ptr);
@@ -238,7 +239,7 @@ AllocationRecord* AllocationMap::findRecord(void* ptr) noexcept
 
 AllocationRecord AllocationMap::remove(void* ptr)
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
   AllocationRecord ret;
 
@@ -268,7 +269,7 @@ bool AllocationMap::contains(void* ptr) const
 
 void AllocationMap::clear()
 {
-  std::lock_guard<std::mutex> lock(m_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
   UMPIRE_LOG(Debug, "Clearing");
 
@@ -278,11 +279,15 @@ void AllocationMap::clear()
 
 std::size_t AllocationMap::size() const
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
+
   return m_size;
 }
 
 void AllocationMap::print(const std::function<bool(const AllocationRecord&)>&& pred, std::ostream& os) const
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
+
   for (auto p : m_map) {
     std::stringstream ss;
     bool any_match = false;
@@ -318,6 +323,17 @@ void AllocationMap::printAll(std::ostream& os) const
   os << "done." << std::endl;
 }
 
+std::vector<AllocationRecord> AllocationMap::getRecords(
+    const std::function<bool(const AllocationRecord&)>& pred) const
+{
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
+
+  std::vector<AllocationRecord> records;
+  std::copy_if(begin(), end(), std::back_inserter(records), pred);
+
+  return records;
+}
+
 AllocationMap::ConstIterator AllocationMap::begin() const
 {
   return AllocationMap::ConstIterator{this, iterator_begin{}};
diff --git a/src/umpire/util/AllocationMap.hpp b/src/umpire/util/AllocationMap.hpp
index 80eb4ab..1af1c18 100644
--- a/src/umpire/util/AllocationMap.hpp
+++ b/src/umpire/util/AllocationMap.hpp
@@ -15,6 +15,8 @@
 #include <functional>
 #include <iostream>
 #include <iterator>
+#include <mutex>
+#include <vector>
 
 #include "umpire/util/AllocationRecord.hpp"
 #include "umpire/util/MemoryMap.hpp"
@@ -153,6 +155,9 @@ class AllocationMap {
 
   void printAll(std::ostream& os = std::cout) const;
 
+  // Copies of the records that satisfy the predicate
+  std::vector<AllocationRecord> getRecords(const std::function<bool(const AllocationRecord&)>& predicate) const;
+
   ConstIterator begin() const;
   ConstIterator end() const;
 
@@ -166,7 +171,7 @@ class AllocationMap {
 
   Map m_map;
   std::size_t m_size;
-  mutable std::mutex m_mutex;
+  mutable std::recursive_mutex m_mutex;
 };
 
 } // end of namespace util
-- 
2.43.0


From 9f51361f8102796c9af11a00046a7ecccf1583b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:09 +0000
Subject: [PATCH 34/59] fix: a thread-safe allocator synchronizes the pools
 built on top of it

---
 src/umpire/Allocator.hpp                    | 2 +-
 src/umpire/Allocator.inl                    | 6 +++---
 src/umpire/strategy/ThreadSafeAllocator.cpp | 5 ++++-
 src/umpire/strategy/ThreadSafeAllocator.hpp | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/umpire/Allocator.hpp b/src/umpire/Allocator.hpp
index 973bd16..c2008d6 100644
--- a/src/umpire/Allocator.hpp
+++ b/src/umpire/Allocator.hpp
@@ -220,7 +220,7 @@ class Allocator : private strategy::mixins::Inspector, strategy::mixins::Allocat
   inline void do_deallocate(void* ptr);
 
   bool m_thread_safe{false};
-  std::mutex* m_thread_safe_mutex{nullptr};
+  std::recursive_mutex* m_thread_safe_mutex{nullptr};
 };
 
 inline std::string to_string(const Allocator& a)
diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index c8e4038..6d072d9 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -49,19 +49,19 @@ inline void* Allocator::do_allocate(std::size_t bytes)
 
 inline void* Allocator::thread_safe_allocate(std::size_t bytes)
 {
-  std::lock_guard<std::mutex> lock(*m_thread_safe_mutex);
+  std::lock_guard<std::recursive_mutex> lock(*m_thread_safe_mutex);
   return do_allocate(bytes);
 }
 
 inline void* Allocator::thread_safe_named_allocate(const std::string& name, std::size_t bytes)
 {
-  std::lock_guard<std::mutex> lock(*m_thread_safe_mutex);
+  std::lock_guard<std::recursive_mutex> lock(*m_thread_safe_mutex);
   return do_named_allocate(name, bytes);
 }
 
 inline void Allocator::thread_safe_deallocate(void* ptr)
 {
-  std::lock_guard<std::mutex> lock(*m_thread_safe_mutex);
+  std::lock_guard<std::recursive_mutex> lock(*m_thread_safe_mutex);
   return do_deallocate(ptr);
 }
 
diff --git a/src/umpire/strategy/ThreadSafeAllocator.cpp b/src/umpire/strategy/ThreadSafeAllocator.cpp
index 6c1aa98..c9ecf04 100644
--- a/src/umpire/strategy/ThreadSafeAllocator.cpp
+++ b/src/umpire/strategy/ThreadSafeAllocator.cpp
@@ -22,11 +22,14 @@ ThreadSafeAllocator::ThreadSafeAllocator(const std::string& name, int id, Alloca
 
 void* ThreadSafeAllocator::allocate(std::size_t bytes)
 {
+  // allocators built on top of this one do not hold the lock
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   return m_allocator->allocate_internal(bytes);
 }
 
 void ThreadSafeAllocator::deallocate(void* ptr, std::size_t size)
 {
+  std::lock_guard<std::recursive_mutex> lock(m_mutex);
   m_allocator->deallocate_internal(ptr, size);
 }
 
@@ -40,7 +43,7 @@ MemoryResourceTraits ThreadSafeAllocator::getTraits() const noexcept
   return m_allocator->getTraits();
 }
 
-std::mutex* ThreadSafeAllocator::get_mutex()
+std::recursive_mutex* ThreadSafeAllocator::get_mutex()
 {
   return &m_mutex;
 }
diff --git a/src/umpire/strategy/ThreadSafeAllocator.hpp b/src/umpire/strategy/ThreadSafeAllocator.hpp
index 282d5e6..aef12c2 100644
--- a/src/umpire/strategy/ThreadSafeAllocator.hpp
+++ b/src/umpire/strategy/ThreadSafeAllocator.hpp
@@ -33,12 +33,12 @@ class ThreadSafeAllocator : public AllocationStrategy {
 
   MemoryResourceTraits getTraits() const noexcept override;
 
-  std::mutex* get_mutex();
+  std::recursive_mutex* get_mutex();
 
  protected:
   strategy::AllocationStrategy* m_allocator;
 
-  std::mutex m_mutex;
+  std::recursive_mutex m_mutex;
 };
 
 } // end of namespace strategy
-- 
2.43.0


From 517f662d0ce734f5fbfb3e55edebfc1a909a22ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 35/59] fix: the file and null resources report their
 statistics

Both overrode the size queries to return zero, so the current size and high
watermark of FILE did not count its allocations.
---
 src/umpire/resource/FileMemoryResource.cpp | 10 ----------
 src/umpire/resource/FileMemoryResource.hpp |  3 ---
 src/umpire/resource/NullMemoryResource.cpp | 10 ----------
 src/umpire/resource/NullMemoryResource.hpp |  3 ---
 4 files changed, 26 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..b600eec 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -131,16 +131,6 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   m_size_map.erase(iter->first);
 }
 
-std::size_t FileMemoryResource::getCurrentSize() const noexcept
-{
-  return 0;
-}
-
-std::size_t FileMemoryResource::getHighWatermark() const noexcept
-{
-  return 0;
-}
-
 bool FileMemoryResource::isPageable() noexcept
 {
 #if defined(UMPIRE_ENABLE_CUDA)
diff --git a/src/umpire/resource/FileMemoryResource.hpp b/src/umpire/resource/FileMemoryResource.hpp
index b13f845..e5ae656 100644
--- a/src/umpire/resource/FileMemoryResource.hpp
+++ b/src/umpire/resource/FileMemoryResource.hpp
@@ -81,9 +81,6 @@ class FileMemoryResource : public MemoryResource {
    */
   void deallocate(void* ptr, std::size_t size);
 
-  std::size_t getCurrentSize() const noexcept;
-  std::size_t getHighWatermark() const noexcept;
-
   bool isAccessibleFrom(Platform p) noexcept;
 
   Platform getPlatform() noexcept;
diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 02de928..7108060 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -59,16 +59,6 @@ void NullMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
 #endif
 }
 
-std::size_t NullMemoryResource::getCurrentSize() const noexcept
-{
-  return 0;
-}
-
-std::size_t NullMemoryResource::getHighWatermark() const noexcept
-{
-  return 0;
-}
-
 bool NullMemoryResource::isAccessibleFrom(Platform p) noexcept
 {
   if (p != Platform::undefined)
diff --git a/src/umpire/resource/NullMemoryResource.hpp b/src/umpire/resource/NullMemoryResource.hpp
index 2e233d3..ee6edec 100644
--- a/src/umpire/resource/NullMemoryResource.hpp
+++ b/src/umpire/resource/NullMemoryResource.hpp
@@ -21,9 +21,6 @@ class NullMemoryResource : public MemoryResource {
   void* allocate(std::size_t bytes);
   void deallocate(void* ptr, std::size_t size);
 
-  std::size_t getCurrentSize() const noexcept;
-  std::size_t getHighWatermark() const noexcept;
-
   bool isAccessibleFrom(Platform p) noexcept;
   Platform getPlatform() noexcept;
 
-- 
2.43.0


From a8a394270cf0ed198392ff8a5bf31dca38fda660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:33 +0000
Subject: [PATCH 36/59] fix: file memory resource does not reuse files left
 behind

The name of a backing file is made from the process id and a counter, so a file
left by an earlier process with the same id was opened and its old contents
handed out. Files are created exclusively now, using the next name if one
exists.
---
 src/umpire/resource/FileMemoryResource.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index b600eec..185e6fa 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -57,12 +57,17 @@ void* FileMemoryResource::allocate(std::size_t bytes)
     default_dir = memory_file_dir;
   }
 
-  // Create name and open file
+  // Create name and open file, skipping names of files that already exist
   std::stringstream ss;
-  ss << default_dir << "umpire_mem_" << getpid() << "_" << s_file_counter;
-  s_file_counter++;
+  int fd{-1};
+  do {
+    ss.str("");
+    ss << default_dir << "umpire_mem_" << getpid() << "_" << s_file_counter;
+    s_file_counter++;
+
+    fd = open(ss.str().c_str(), O_RDWR | O_CREAT | O_EXCL | O_LARGEFILE, S_IRWXU);
+  } while (fd == -1 && errno == EEXIST);
 
-  int fd{open(ss.str().c_str(), O_RDWR | O_CREAT | O_LARGEFILE, S_IRWXU)};
   if (fd == -1) {
     UMPIRE_ERROR(runtime_error, fmt::format("Opening file {} failed: {}", ss.str(), strerror(errno)));
   }
-- 
2.43.0


From 5a0b1fce6b023ca350362e814d988c89ac1f19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:33 +0000
Subject: [PATCH 37/59] fix: file memory resource closes the descriptor when an
 allocation fails

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 185e6fa..d5c9f6e 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -80,6 +80,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -91,6 +92,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From ae0ec9bfafa8b309056fff2549fcb34aa0a4e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:05 +0000
Subject: [PATCH 38/59] fix: file memory resource puts its files into the
 configured directory

Without a trailing slash, the value of UMPIRE_MEMORY_FILE_DIR was used as a
prefix of the file name and the files ended up next to the directory.
---
 src/umpire/resource/FileMemoryResource.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index d5c9f6e..eee2db5 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -55,6 +55,9 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   std::string default_dir = "./";
   if (memory_file_dir) {
     default_dir = memory_file_dir;
+    if (!default_dir.empty() && default_dir.back() != '/') {
+      default_dir += '/';
+    }
   }
 
   // Create name and open file, skipping names of files that already exist
-- 
2.43.0


From ef2f2beff86d1e6c8eefca3b95db3b77a21471e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:05 +0000
Subject: [PATCH 39/59] fix: file memory resource finds its files after a
 change of directory

With a relative directory, the default, freeing failed and left the file behind
if the working directory had changed since the allocation.
---
 src/umpire/resource/FileMemoryResource.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index eee2db5..4cae621 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -101,12 +101,19 @@ void* FileMemoryResource::allocate(std::size_t bytes)
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
   }
 
-  // Storing Information On File
-  std::pair<const std::string, std::size_t> info{std::make_pair(ss.str(), rounded_bytes)};
+  // Storing Information On File. The absolute path, as the working directory
+  // may be a different one when the file is removed.
+  std::string file_name{ss.str()};
+  char* absolute_name{realpath(file_name.c_str(), nullptr)};
+  if (absolute_name) {
+    file_name = absolute_name;
+    free(absolute_name);
+  }
+  std::pair<const std::string, std::size_t> info{std::make_pair(file_name, rounded_bytes)};
   m_size_map.insert(ptr, info);
 
 #if defined(UMPIRE_ENABLE_UMAP) // Using mmap
-  m_filefd[ss.str()] = fd;
+  m_filefd[file_name] = fd;
 #else
   close(fd);
 #endif
-- 
2.43.0


From 902cbc9668157d062132c5525ebfda7497bf83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:53 +0000
Subject: [PATCH 40/59] fix: file memory resource can be used by several
 allocators at once

Pools of different threads over FILE shared its file counter and its map of
files without synchronization.
---
 src/umpire/resource/FileMemoryResource.cpp | 19 +++++++++++++------
 src/umpire/resource/FileMemoryResource.hpp |  5 ++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 4cae621..6ac4711 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -28,7 +28,7 @@
 namespace umpire {
 namespace resource {
 
-int FileMemoryResource::s_file_counter{0};
+std::atomic<int> FileMemoryResource::s_file_counter{0};
 
 FileMemoryResource::FileMemoryResource(Platform platform, const std::string& name, int id, MemoryResourceTraits traits)
     : MemoryResource{name, id, traits}, m_platform{platform}, m_size_map{}
@@ -65,8 +65,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int fd{-1};
   do {
     ss.str("");
-    ss << default_dir << "umpire_mem_" << getpid() << "_" << s_file_counter;
-    s_file_counter++;
+    ss << default_dir << "umpire_mem_" << getpid() << "_" << s_file_counter++;
 
     fd = open(ss.str().c_str(), O_RDWR | O_CREAT | O_EXCL | O_LARGEFILE, S_IRWXU);
   } while (fd == -1 && errno == EEXIST);
@@ -110,11 +109,16 @@ void* FileMemoryResource::allocate(std::size_t bytes)
     free(absolute_name);
   }
   std::pair<const std::string, std::size_t> info{std::make_pair(file_name, rounded_bytes)};
-  m_size_map.insert(ptr, info);
+  {
+    std::lock_guard<std::mutex> lock{m_mutex};
+    m_size_map.insert(ptr, info);
 
 #if defined(UMPIRE_ENABLE_UMAP) // Using mmap
-  m_filefd[file_name] = fd;
-#else
+    m_filefd[file_name] = fd;
+#endif
+  }
+
+#if !defined(UMPIRE_ENABLE_UMAP)
   close(fd);
 #endif
 
@@ -123,6 +127,9 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 
 void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
 {
+  // Held until the information is gone, as the address may be mapped again at once
+  std::lock_guard<std::mutex> lock{m_mutex};
+
   // Find information about ptr for deallocation
   auto iter = m_size_map.find(ptr);
 
diff --git a/src/umpire/resource/FileMemoryResource.hpp b/src/umpire/resource/FileMemoryResource.hpp
index e5ae656..71ce36a 100644
--- a/src/umpire/resource/FileMemoryResource.hpp
+++ b/src/umpire/resource/FileMemoryResource.hpp
@@ -7,7 +7,9 @@
 #ifndef UMPIRE_FileMemoryResource_HPP
 #define UMPIRE_FileMemoryResource_HPP
 
+#include <atomic>
 #include <map>
+#include <mutex>
 #include <utility>
 
 #include "umpire/resource/MemoryResource.hpp"
@@ -84,7 +86,7 @@ class FileMemoryResource : public MemoryResource {
   bool isAccessibleFrom(Platform p) noexcept;
 
   Platform getPlatform() noexcept;
-  static int s_file_counter;
+  static std::atomic<int> s_file_counter;
 
  protected:
   Platform m_platform;
@@ -99,6 +101,7 @@ class FileMemoryResource : public MemoryResource {
 #if defined(UMPIRE_ENABLE_UMAP)
   std::map<std::string, int> m_filefd;
 #endif
+  std::mutex m_mutex; // protects the above
 
   bool isPageable() noexcept;
 };
-- 
2.43.0


From 8932b243c8ddfacac00d0c559f78fe7bab501826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 41/59] fix: a named shared allocation is not handed out for
 more bytes than it has

Allocating an existing name with a larger size returned the existing, smaller
block, so that the caller wrote into other allocations or beyond the segment.
---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 672dc42..fec8bdf 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -199,6 +199,12 @@ class HostSharedMemoryResource::impl {
     SharedMemoryBlock* prev{nullptr};
 
     if (best != nullptr) {
+      const std::size_t available_size{best->name_offset - best->memory_offset};
+      if (requested_size > available_size) {
+        pthread_mutex_unlock(&m_segment->mutex);
+        UMPIRE_ERROR(runtime_error, fmt::format("shared memory allocation \"{}\" exists with {} bytes, {} were requested",
+                                                name, available_size, requested_size));
+      }
       best->reference_count++;
     } else { // New allocation
       findUsableBlock(best, prev, adjusted_size);
-- 
2.43.0


From b2f70fd9bb77befaa402d37572d01bfecf56ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 42/59] fix: huge named shared allocations are refused

The size including alignment and bookkeeping wrapped around, and a tiny block
was returned.
---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index fec8bdf..77bcf6e 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -207,7 +207,9 @@ class HostSharedMemoryResource::impl {
       }
       best->reference_count++;
     } else { // New allocation
-      findUsableBlock(best, prev, adjusted_size);
+      if (requested_size <= m_segment->segment_size) { // otherwise adjusted_size may have wrapped around
+        findUsableBlock(best, prev, adjusted_size);
+      }
 
       if (best != nullptr) {
         // Split the free block
-- 
2.43.0


From 727f1b685a84253118372dd39e56776c82b5e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 43/59] fix: failing to create a shared segment leaves nothing
 behind and stops nobody

If creating or initializing a shared memory segment failed, its name, mapping
and descriptor stayed behind, and every process that opened the segment waited
for its initialization forever. A size too small for the bookkeeping was
accepted.
---
 .../resource/HostSharedMemoryResourceImpl.hpp | 128 +++++++++++-------
 1 file changed, 77 insertions(+), 51 deletions(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 77bcf6e..591398d 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -88,72 +88,98 @@ class HostSharedMemoryResource::impl {
       std::this_thread::yield();
     }
 
-    if (created) {
-      if (0 != ftruncate(m_segment_fd, size)) {
-        err = errno;
-        UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
-                                                m_segment_name, strerror(err)));
-      }
+    try {
+      if (created) {
+        if (size < sizeof(SharedMemorySegmentHeader) + sizeof(SharedMemoryBlock)) {
+          UMPIRE_ERROR(runtime_error, fmt::format("Size {} is too small for shared memory segment \"{}\"", size,
+                                                  m_segment_name));
+        }
 
-      map_shared_memory_segment();
+        if (0 != ftruncate(m_segment_fd, size)) {
+          err = errno;
+          UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
+                                                  m_segment_name, strerror(err)));
+        }
 
-      __atomic_store_n(&m_segment->init_flag, Initializing, __ATOMIC_SEQ_CST);
+        map_shared_memory_segment();
 
-      pthread_mutexattr_t mattr;
-      if ((err = pthread_mutexattr_init(&mattr)) != 0) {
-        UMPIRE_ERROR(runtime_error,
-                     fmt::format("Failed to initialize mutex attributes for shared memory segment \"{}\": {}",
-                                 m_segment_name, strerror(err)));
-      }
+        __atomic_store_n(&m_segment->init_flag, Initializing, __ATOMIC_SEQ_CST);
 
-      if ((err = pthread_mutexattr_setpshared(&mattr, PTHREAD_PROCESS_SHARED)) != 0) {
-        UMPIRE_ERROR(runtime_error, fmt::format("Failed to set shared attributes for shared memory segment \"{}\": {}",
-                                                m_segment_name, strerror(err)));
-      }
+        pthread_mutexattr_t mattr;
+        if ((err = pthread_mutexattr_init(&mattr)) != 0) {
+          UMPIRE_ERROR(runtime_error,
+                       fmt::format("Failed to initialize mutex attributes for shared memory segment \"{}\": {}",
+                                   m_segment_name, strerror(err)));
+        }
 
-      if ((err = pthread_mutex_init(&m_segment->mutex, &mattr)) != 0) {
-        UMPIRE_ERROR(runtime_error, fmt::format("Failed to initialize mutex for shared memory segment \"{}\": {}",
-                                                m_segment_name, strerror(err)));
-      }
+        if ((err = pthread_mutexattr_setpshared(&mattr, PTHREAD_PROCESS_SHARED)) != 0) {
+          UMPIRE_ERROR(runtime_error, fmt::format("Failed to set shared attributes for shared memory segment \"{}\": {}",
+                                                  m_segment_name, strerror(err)));
+        }
 
-      m_segment->segment_size = size;
+        if ((err = pthread_mutex_init(&m_segment->mutex, &mattr)) != 0) {
+          UMPIRE_ERROR(runtime_error, fmt::format("Failed to initialize mutex for shared memory segment \"{}\": {}",
+                                                  m_segment_name, strerror(err)));
+        }
 
-      pointer_to_offset(&m_segment[1], m_segment->free_blocks_off);
-      m_segment->actual_size = m_segment->free_blocks_off;
+        m_segment->segment_size = size;
 
-      pointer_to_offset(nullptr, m_segment->used_blocks_off);
-      SharedMemoryBlock* block_ptr;
-      offset_to_pointer(m_segment->free_blocks_off, block_ptr);
-      pointer_to_offset(nullptr, block_ptr->next_block_off);
-      pointer_to_offset(nullptr, block_ptr->name_offset);
-      block_ptr->block_size = size - sizeof(SharedMemorySegmentHeader);
-      block_ptr->reference_count = 0;
+        pointer_to_offset(&m_segment[1], m_segment->free_blocks_off);
+        m_segment->actual_size = m_segment->free_blocks_off;
 
-      __atomic_store_n(&m_segment->init_flag, Initialized, __ATOMIC_SEQ_CST);
-    } else {
-      // Wait for the file size to change
-      off_t filesize{0};
-      while (filesize == 0) {
-        struct stat st;
+        pointer_to_offset(nullptr, m_segment->used_blocks_off);
+        SharedMemoryBlock* block_ptr;
+        offset_to_pointer(m_segment->free_blocks_off, block_ptr);
+        pointer_to_offset(nullptr, block_ptr->next_block_off);
+        pointer_to_offset(nullptr, block_ptr->name_offset);
+        block_ptr->block_size = size - sizeof(SharedMemorySegmentHeader);
+        block_ptr->reference_count = 0;
 
-        if (fstat(m_segment_fd, &st) < 0) {
-          err = errno;
-          UMPIRE_ERROR(runtime_error,
-                       fmt::format("Failed fstat for shared memory segment  {}: {}", m_segment_name, strerror(err)));
+        __atomic_store_n(&m_segment->init_flag, Initialized, __ATOMIC_SEQ_CST);
+      } else {
+        // Wait for the file size to change
+        off_t filesize{0};
+        while (filesize == 0) {
+          struct stat st;
+
+          if (fstat(m_segment_fd, &st) < 0) {
+            err = errno;
+            UMPIRE_ERROR(runtime_error,
+                         fmt::format("Failed fstat for shared memory segment  {}: {}", m_segment_name, strerror(err)));
+          }
+          filesize = st.st_size;
+          if (filesize == 0 && st.st_nlink == 0) {
+            UMPIRE_ERROR(runtime_error, fmt::format("Creation of shared memory segment \"{}\" failed", m_segment_name));
+          }
+          std::this_thread::yield();
         }
-        filesize = st.st_size;
-        std::this_thread::yield();
-      }
 
-      map_shared_memory_segment();
+        map_shared_memory_segment();
 
-      uint32_t value{__atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST)};
+        uint32_t value{__atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST)};
 
-      // Wait for the memory segment header to be initialized
-      while (value != Initialized) {
-        std::this_thread::yield();
-        value = __atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST);
+        // Wait for the memory segment header to be initialized
+        while (value != Initialized) {
+          std::this_thread::yield();
+          struct stat st;
+          const bool removed{fstat(m_segment_fd, &st) == 0 && st.st_nlink == 0};
+          value = __atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST);
+          if (removed && value != Initialized) {
+            UMPIRE_ERROR(runtime_error,
+                         fmt::format("Initialization of shared memory segment \"{}\" failed", m_segment_name));
+          }
+        }
+      }
+    } catch (...) {
+      // Leave nothing behind: others waiting for the initialization notice that the segment is gone
+      if (m_segment != nullptr) {
+        munmap(m_segment, m_segment_size);
+      }
+      if (created) {
+        shm_unlink(m_segment_name.c_str());
       }
+      close(m_segment_fd);
+      throw;
     }
   }
 
-- 
2.43.0


From 2f76606da3ff1ad1f99e908f134e7f31ec20c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 44/59] fix: looking up a name in an allocator without shared
 memory raises an error

The cast to the shared memory resource was unchecked, so the intended error was
never raised and the call crashed.
---
 src/umpire/Umpire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index c22a878..fd1e127 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -211,7 +211,7 @@ void* find_pointer_from_name(Allocator allocator, const std::string& name)
   auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
 
   umpire::resource::HostSharedMemoryResource* shared_resource =
-      reinterpret_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
+      dynamic_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
 
   if (shared_resource != nullptr) {
     ptr = shared_resource->find_pointer_from_name(name);
-- 
2.43.0


From 5e578870e9646bc0360597f8d74e839286236d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:32 +0000
Subject: [PATCH 45/59] fix: OutputBuffer starts without sinks

---
 src/umpire/util/OutputBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/OutputBuffer.hpp b/src/umpire/util/OutputBuffer.hpp
index 13bd40f..ef62364 100644
--- a/src/umpire/util/OutputBuffer.hpp
+++ b/src/umpire/util/OutputBuffer.hpp
@@ -25,8 +25,8 @@ class OutputBuffer : public std::streambuf {
   int sync() override;
 
  private:
-  std::streambuf* d_console_stream;
-  std::streambuf* d_file_stream;
+  std::streambuf* d_console_stream{nullptr};
+  std::streambuf* d_file_stream{nullptr};
 };
 
 } // end of namespace util
-- 
2.43.0


From 66ea1bf07a09ccc2d87a285376d48c26ff2e3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:48 +0000
Subject: [PATCH 46/59] fix: file_exists recognises files that cannot be read

---
 src/umpire/util/io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/io.cpp b/src/umpire/util/io.cpp
index 006886f..2f14b5e 100644
--- a/src/umpire/util/io.cpp
+++ b/src/umpire/util/io.cpp
@@ -168,8 +168,13 @@ std::string make_unique_filename(const std::string& base_dir, const std::string&
 
 bool file_exists(const std::string& path)
 {
-  std::ifstream ifile(path.c_str());
-  return ifile.good();
+#if defined(UMPIRE_ENABLE_FILESYSTEM)
+  std::error_code ec;
+  return std::filesystem::exists(std::filesystem::path(path), ec);
+#else
+  struct stat info;
+  return stat(path.c_str(), &info) == 0;
+#endif
 }
 
 bool directory_exists(const std::string& path)
-- 
2.43.0


From d8c8ce3316dfe511f628143e1635f697e6ec56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 47/59] fix: define finalize_io with the signature it is
 declared with

---
 src/umpire/util/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/io.cpp b/src/umpire/util/io.cpp
index 2f14b5e..94d80c5 100644
--- a/src/umpire/util/io.cpp
+++ b/src/umpire/util/io.cpp
@@ -137,7 +137,7 @@ void initialize_io(const bool enable_log)
   MPI::logMpiInfo();
 }
 
-void finalize_io()
+void finalize_io(const bool UMPIRE_UNUSED_ARG(enable_log))
 {
   detail::s_log_buffer_accessor().sync();
   detail::s_log_buffer_accessor().setConsoleStream(nullptr);
-- 
2.43.0


From 90d689a466e73de483aa896d67831d12b97d8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 48/59] fix: write names to the event log as valid JSON strings

Names with quotes, backslashes or control characters made a line unreadable,
names that are not UTF-8 raised an error (or ended the program, from functions
that are noexcept) after the operation was done.
---
 src/umpire/event/json_file_store.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 3705ff7..49dc311 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -22,6 +22,15 @@
 namespace umpire {
 namespace event {
 
+namespace {
+// Characters that are not part of a valid UTF-8 sequence are replaced, as
+// there is no way to represent them and recording must not raise an error.
+std::string to_text(const nlohmann::json& json)
+{
+  return json.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+} // namespace
+
 json_file_store::json_file_store(const std::string& filename, bool read_only)
     : m_filename{filename}, m_read_only{read_only}
 {
@@ -31,9 +40,7 @@ void json_file_store::insert(const event& e)
 {
   open_store();
   nlohmann::json json_event = e;
-  std::stringstream ss;
-  ss << json_event;
-  fprintf(m_fstream, "%s\n", ss.str().c_str());
+  fprintf(m_fstream, "%s\n", to_text(json_event).c_str());
 }
 
 void json_file_store::insert(const allocate& e)
@@ -55,11 +62,11 @@ void json_file_store::insert(const named_allocate& e)
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
           "\n",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          e.size, e.ref, e.ptr, to_text(nlohmann::json(e.name)).c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 }
-- 
2.43.0


From 7f664e27049a70bc52044ffb1e53087aa787464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 49/59] fix: open the event file for whichever event comes
 first

---
 src/umpire/event/json_file_store.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 49dc311..ebed14a 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -45,6 +45,7 @@ void json_file_store::insert(const event& e)
 
 void json_file_store::insert(const allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -59,6 +60,7 @@ void json_file_store::insert(const allocate& e)
 
 void json_file_store::insert(const named_allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -73,6 +75,7 @@ void json_file_store::insert(const named_allocate& e)
 
 void json_file_store::insert(const deallocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"deallocate")"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-- 
2.43.0


From fb1092922507a7135b899fad95d2bf78be67a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:17 +0000
Subject: [PATCH 50/59] fix: record the number of bytes a memset changes

---
 src/umpire/ResourceManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 49e469b..13e2611 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -507,7 +507,7 @@ void ResourceManager::memset(void* ptr, int value, std::size_t length)
         .category(event::category::operation)
         .arg("ptr", ptr)
         .arg("value", value)
-        .arg("size", size)
+        .arg("size", length)
         .arg("allocator_ref", (void*)alloc_record->strategy)
         .tag("allocator_name", alloc_record->strategy->getName())
         .tag("replay", "true");
@@ -544,7 +544,7 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::memset(v
         .category(event::category::operation)
         .arg("ptr", ptr)
         .arg("value", value)
-        .arg("size", size)
+        .arg("size", length)
         .arg("allocator_ref", (void*)alloc_record->strategy)
         .tag("allocator_name", alloc_record->strategy->getName())
         .tag("replay", "true")
-- 
2.43.0


From 049cdb98146c58d2ca25ac2288405a2d8927fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:27 +0000
Subject: [PATCH 51/59] fix: a move that cannot copy the data gives the new
 block back

---
 src/umpire/ResourceManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 13e2611..a7c60ee 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -841,7 +841,12 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 
   void* dst_ptr{allocator.allocate(alloc_record->size)};
-  copy(dst_ptr, ptr);
+  try {
+    copy(dst_ptr, ptr);
+  } catch (...) {
+    allocator.deallocate(dst_ptr);
+    throw;
+  }
 
   deallocate(ptr);
 
-- 
2.43.0


From 3cb9c195057806d9a7279f0dea022c3707753179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:16 +0000
Subject: [PATCH 52/59] fix: SlotPool gave back slots in use with a negative
 size when destroyed

---
 src/umpire/strategy/SlotPool.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index a98645f..8aaf406 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -7,6 +7,8 @@
 
 #include "umpire/strategy/SlotPool.hpp"
 
+#include <cstdlib>
+
 #include "umpire/util/Macros.hpp"
 #include "umpire/util/error.hpp"
 
@@ -35,7 +37,8 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      // The length of a slot that is in use is negative
+      m_allocator->deallocate_internal(m_pointers[i], std::abs(m_lengths[i]));
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
-- 
2.43.0


From 99b0e631be34b8d2485af1d781ad2dff97d6cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:09 +0000
Subject: [PATCH 53/59] fix: replay accepts the recorded named allocations and
 memsets

---
 tools/replay/ReplayInterpreter.cpp | 6 +++++-
 tools/replay/ReplayInterpreter.hpp | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 4556001..61063f3 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -113,7 +113,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       continue;
 
     try {
-      if ( m_event.name == "allocate" ) {
+      if ( m_event.name == "allocate" || m_event.name == "named_allocate" ) {
         m_allocate_ops++;
         compile_allocate();
       }
@@ -134,6 +134,9 @@ umpire::event::json_file_store store{m_options.input_file, true};
       else if ( m_event.name == "copy" ) {
         m_copy_ops++;
       }
+      else if ( m_event.name == "memset" ) {
+        m_memset_ops++;
+      }
       else if ( m_event.name == "move" ) {
         m_move_ops++;
       }
@@ -194,6 +197,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       << std::setw(12) << m_deregister_external_pointer << " external deregistrations (not replayed)" << std::endl
       << std::endl
       << std::setw(12) << m_copy_ops << " copy operations" << std::endl
+      << std::setw(12) << m_memset_ops << " memset operations" << std::endl
       << std::setw(12) << m_move_ops << " move operations" << std::endl
       << std::setw(12) << m_reallocate_ops << " reallocate operations" << std::endl
       << std::setw(12) << m_set_default_allocator_ops << " setDefaultAllocator operations" << std::endl
diff --git a/tools/replay/ReplayInterpreter.hpp b/tools/replay/ReplayInterpreter.hpp
index 9455e24..331f16f 100644
--- a/tools/replay/ReplayInterpreter.hpp
+++ b/tools/replay/ReplayInterpreter.hpp
@@ -56,6 +56,7 @@ class ReplayInterpreter {
     std::size_t m_make_allocator_ops{0};
     std::size_t m_make_memory_resource_ops{0};
     std::size_t m_copy_ops{0};
+    std::size_t m_memset_ops{0};
     std::size_t m_move_ops{0};
     std::size_t m_reallocate_ops{0};
     std::size_t m_set_default_allocator_ops{0};
-- 
2.43.0


From 375bddb7c698b641ebf5e6fec9702f220da9faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:45 +0000
Subject: [PATCH 54/59] fix: replay -s and -d accept logs with untracked
 allocators

---
 tools/replay/ReplayOperationManager.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/replay/ReplayOperationManager.cpp b/tools/replay/ReplayOperationManager.cpp
index 43c86d9..18e70fd 100644
--- a/tools/replay/ReplayOperationManager.cpp
+++ b/tools/replay/ReplayOperationManager.cpp
@@ -197,9 +197,8 @@ void ReplayOperationManager::runOperations()
           break;
         case ReplayFile::otype::DEALLOCATE:
           if (m_options.track_stats || m_options.dump_statistics) {
-            auto alloc = &m_ops_table->allocators[op->op_allocator];
-            auto ptr = m_ops_table->ops[op->op_alloc_ops[0]].op_allocated_ptr;
-            size_histogram[op->op_allocator].decrement(alloc->allocator->getSize(ptr));
+            // The size was recorded; untracked allocators cannot be asked for it
+            size_histogram[op->op_allocator].decrement(m_ops_table->ops[op->op_alloc_ops[0]].op_size);
           }
           makeDeallocate(op);
           break;
-- 
2.43.0


From 33bdbafec084035e16dd9033bff9f2b29750957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:06 +0000
Subject: [PATCH 55/59] fix: replay skipped coalescing of pools whose name ends
 in _base

---
 tools/replay/ReplayInterpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 61063f3..cc1f52a 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -808,7 +808,9 @@ bool ReplayInterpreter::compile_deallocate()
 void ReplayInterpreter::compile_coalesce()
 {
   std::string allocator_name{m_event.tags["allocator_name"]};
-  strip_off_base(allocator_name);
+  if (m_allocator_index.find(allocator_name) == m_allocator_index.end()) {
+    strip_off_base(allocator_name);
+  }
 
   ReplayFile::Header* hdr = m_ops->getOperationsTable();
   ReplayFile::Operation* op = &hdr->ops[hdr->num_operations];
-- 
2.43.0


From 6f9bf78e893117cf80c255fd46789aa87fe0a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:43 +0000
Subject: [PATCH 56/59] fix: replaydiff took a session for equal to one it is
 the beginning of

---
 tools/replay/ReplayInterpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index cc1f52a..50a1928 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -272,6 +272,7 @@ bool ReplayInterpreter::compareOperations(ReplayInterpreter& rh)
         << m_ops->getOperationsTable()->num_operations
         << " != " << rh.m_ops->getOperationsTable()->num_operations
         << std::endl;
+    rval = false;
   }
 
   if ( rval != false ) {
-- 
2.43.0


From 74e2b65e0f9aad8728e3a12cf7556d6f342ec270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:26 +0000
Subject: [PATCH 57/59] fix: with ASAN, pools gave poisoned memory back to
 their parent

---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 24dc0f0..99210df 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -54,6 +54,9 @@ inline void AlignedAllocation::aligned_deallocate(void* ptr)
   void* buffer{ std::get<0>(ptr_info) };
   std::size_t size = std::get<1>(ptr_info);
   base_pointer_map.erase(ptr);
+
+  UMPIRE_UNPOISON_MEMORY_REGION(m_allocator, buffer, size);
+
   m_allocator->deallocate_internal(buffer, size);
 }
 
-- 
2.43.0


From e6b2bae8bb47322aded9a12a06ec2a822d6650b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:50 +0000
Subject: [PATCH 58/59] fix: any name can be recorded in the SQLite event store

A quote in a name broke the SQL or JSON text and ended the program, text that
is not UTF-8 raised an error, and a long allocation name overran the buffer.
---
 src/umpire/event/sqlite_database.cpp | 42 +++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/umpire/event/sqlite_database.cpp b/src/umpire/event/sqlite_database.cpp
index 8419d98..bedf915 100644
--- a/src/umpire/event/sqlite_database.cpp
+++ b/src/umpire/event/sqlite_database.cpp
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <vector>
 
 #include "umpire/config.hpp"
 #include "umpire/event/event.hpp"
@@ -40,6 +41,29 @@ namespace event {
     }                                                                                                            \
   }
 
+namespace {
+// Characters that are not part of a valid UTF-8 sequence are replaced, as
+// there is no way to represent them and recording must not raise an error.
+std::string to_text(const nlohmann::json& json)
+{
+  return json.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+
+// The text becomes a quoted SQL string, in which quotes are doubled
+void insert_text(sqlite3* database, const std::string& text)
+{
+  std::string sql{"INSERT INTO EVENTS VALUES(json('"};
+  for (char c : text) {
+    sql += c;
+    if (c == '\'') {
+      sql += c;
+    }
+  }
+  sql += "'));";
+  UMP_SQ3_EXE(database, sql.c_str(), NULL, 0);
+}
+} // namespace
+
 sqlite_database::sqlite_database(const std::string& name)
 {
   {
@@ -58,8 +82,7 @@ sqlite_database::sqlite_database(const std::string& name)
 void sqlite_database::insert(const event& e)
 {
   nlohmann::json json_event = e;
-  const std::string sql{"INSERT INTO EVENTS VALUES(json('" + json_event.dump() + "'));"};
-  UMP_SQ3_EXE(m_database, sql.c_str(), NULL, 0);
+  insert_text(m_database, to_text(json_event));
 }
 
 void sqlite_database::insert(const allocate& e)
@@ -82,21 +105,20 @@ void sqlite_database::insert(const allocate& e)
 
 void sqlite_database::insert(const named_allocate& e)
 {
-  char buffer[512];
+  const std::string name{to_text(nlohmann::json(e.name))};
+  std::vector<char> buffer(512 + name.size());
 
-  sprintf(buffer,
-          "INSERT INTO EVENTS VALUES(json('"
+  sprintf(buffer.data(),
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
-          R"(,"timestamp":%lld})"
-          "'));",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          R"(,"timestamp":%lld})",
+          e.size, e.ref, e.ptr, name.c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 
-  UMP_SQ3_EXE(m_database, buffer, NULL, 0);
+  insert_text(m_database, buffer.data());
 }
 
 void sqlite_database::insert(const deallocate& e)
-- 
2.43.0


From edb9d8b4915b35a00122cff494e45c32ab822804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 59/59] fix: a fixed pool whose size overflows is refused

---
 src/umpire/strategy/FixedPool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index e3e4096..c9a13ba 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <sstream>
 
 #include "umpire/util/Macros.hpp"
@@ -50,6 +51,9 @@ FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const
       m_highwatermark{0},
       m_pool{}
 {
+  if (m_obj_bytes != 0 && m_obj_per_pool > std::numeric_limits<std::size_t>::max() / m_obj_bytes) {
+    UMPIRE_ERROR(runtime_error, fmt::format("FixedPool: {} objects of {} bytes are too large", objects_per_pool, object_bytes));
+  }
   newPool();
 }
 
-- 
2.43.0

