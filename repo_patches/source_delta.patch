From 10e409ae21dc1c3ecde2bb69224396c1e8b5c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 01/32] fix: llvm_memmgr: refuse oversized sections before
 writing to the buffer

jitc_llvm_memmgr_allocate() zero-filled the padding region and advanced the
offset before checking that the section fits, so that a refused request (and
every later one) could write beyond the end of the buffer.
---
 src/llvm_memmgr.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/llvm_memmgr.cpp b/src/llvm_memmgr.cpp
index ee09ebb..caef9a3 100644
--- a/src/llvm_memmgr.cpp
+++ b/src/llvm_memmgr.cpp
@@ -32,15 +32,17 @@ uint8_t *jitc_llvm_memmgr_allocate(void * /* opaque */, uintptr_t size,
 
     size_t offset_align = (jitc_llvm_memmgr_offset + (align - 1)) / align * align;
 
+    // Refuse requests that do not fit, without touching the buffer
+    if (offset_align > jitc_llvm_memmgr_size ||
+        size > jitc_llvm_memmgr_size - offset_align)
+        return nullptr;
+
     // Zero-fill including padding region
     memset(jitc_llvm_memmgr_data + jitc_llvm_memmgr_offset, 0,
            offset_align - jitc_llvm_memmgr_offset);
 
     jitc_llvm_memmgr_offset = offset_align + size;
 
-    if (jitc_llvm_memmgr_offset > jitc_llvm_memmgr_size)
-        return nullptr;
-
     return jitc_llvm_memmgr_data + offset_align;
 }
 
-- 
2.43.0


From 745a393bf7514bd250c6be96a5fe0ebf3c7e833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 02/32] fix: llvm_memmgr: do not keep a released buffer when
 reallocation fails

jitc_llvm_memmgr_prepare() freed the buffer but left the pointer and size in
place if posix_memalign() failed: a subsequent (smaller) request used the
released memory, and shutdown released it a second time.
---
 src/llvm_memmgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/llvm_memmgr.cpp b/src/llvm_memmgr.cpp
index caef9a3..0fa88c7 100644
--- a/src/llvm_memmgr.cpp
+++ b/src/llvm_memmgr.cpp
@@ -67,10 +67,13 @@ void jitc_llvm_memmgr_prepare(size_t size) {
     if (jitc_llvm_memmgr_size <= target_size) {
 #if !defined(_WIN32)
         free(jitc_llvm_memmgr_data);
+        jitc_llvm_memmgr_data = nullptr;
+        jitc_llvm_memmgr_size = jitc_llvm_memmgr_offset = 0;
         if (posix_memalign((void **) &jitc_llvm_memmgr_data, 4096, target_size))
             jitc_raise("jit_llvm_compile(): could not allocate %zu bytes of memory!", target_size);
 #else
         _aligned_free(jitc_llvm_memmgr_data);
+        jitc_llvm_memmgr_size = jitc_llvm_memmgr_offset = 0;
         jitc_llvm_memmgr_data = (uint8_t *) _aligned_malloc(target_size, 4096);
         if (!jitc_llvm_memmgr_data)
             jitc_raise("jit_llvm_compile(): could not allocate %zu bytes of memory!", target_size);
-- 
2.43.0


From a81beaae1da81846b92493f16eeeabb7f145dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 03/32] fix: avoid 32-bit overflow when splitting launches near
 2^32 elements

The warp/packet/block counts computed by CUDADevice::get_launch_config() and
LLVMThreadState::launch() wrapped around for sizes close to 2^32, which
silently dropped the end of the array (or all of it).
---
 src/internal.h  |  2 +-
 src/llvm_ts.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/internal.h b/src/internal.h
index 2564814..e891668 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -565,7 +565,7 @@ struct CUDADevice {
                            uint32_t max_blocks_per_sm = 0) const {
 
         uint32_t warp_size           = 32,
-                 warp_count          = (size + warp_size - 1) / warp_size,
+                 warp_count          = size / warp_size + (size % warp_size != 0),
                  max_warps_per_block = (max_threads + warp_size - 1) / warp_size;
 
         uint32_t block_count, warps_per_block;
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..2b7a7a3 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -104,7 +104,7 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
 
     uint32_t packet_size = jitc_llvm_vector_width,
              desired_block_size = jitc_llvm_block_size,
-             packets = (size + packet_size - 1) / packet_size,
+             packets = size / packet_size + (size % packet_size != 0),
              cores = pool_size();
 
     // We really don't know how much computation this kernel performs, and
@@ -138,7 +138,7 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         block_size = (packets + blocks - 1) / blocks * packet_size;
     } else {
         block_size = desired_block_size;
-        blocks = (size + block_size - 1) / block_size;
+        blocks = size / block_size + (size % block_size != 0);
     }
 
     auto callback = [](uint32_t index, void *ptr) {
@@ -147,12 +147,14 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         uint32_t size       = (uint32_t) (uintptr_t) params[1],
                  block_size = (uint32_t) ((uintptr_t) params[1] >> 32),
                  start      = index * block_size,
-                 thread_id  = pool_thread_id(),
-                 end        = std::min(start + block_size, size);
+                 thread_id  = pool_thread_id();
 
-        if (start >= end)
+        if (start >= size)
             return;
 
+        // Avoid computing 'start + block_size', which may exceed 2^32 - 1
+        uint32_t end = start + std::min(block_size, size - start);
+
 #if defined(DRJIT_ENABLE_ITTNOTIFY)
         // Signal start of kernel
         __itt_task_begin(drjit_domain, __itt_null, __itt_null,
-- 
2.43.0


From 8bde4c57263c007f9f315ac489c45e0b4f92ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 04/32] fix: nanostl: vector: appending an element of the
 vector itself

push_back()/emplace_back() released the storage referenced by their argument
before reading it when the vector had to grow.
---
 include/drjit-core/nanostl.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 5a5337e..b534966 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -159,23 +159,22 @@ public:
     }
 
     void push_back(const T &value) {
-        if (m_size == m_capacity)
-            expand();
-        new (&m_data[m_size]) T(value);
-        m_size++;
+        emplace_back(value);
     }
 
     void push_back(T &&value) {
-        if (m_size == m_capacity)
-            expand();
-        new (&m_data[m_size]) T(std::move(value));
-        m_size++;
+        emplace_back(std::move(value));
     }
 
     template <typename... Args> T &emplace_back(Args &&...args) {
-        if (m_size == m_capacity)
+        if (m_size == m_capacity) {
+            // The arguments may refer to an element of this vector
+            T tmp(std::forward<Args>(args)...);
             expand();
-        new (&m_data[m_size]) T(std::forward<Args>(args)...);
+            new (&m_data[m_size]) T(std::move(tmp));
+        } else {
+            new (&m_data[m_size]) T(std::forward<Args>(args)...);
+        }
         return m_data[m_size++];
     }
 
-- 
2.43.0


From 00021d105e15864f599b53f25423c956319447eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 05/32] fix: nanostl: string: self-assignment emptied the
 string

---
 include/drjit-core/nanostl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index b534966..a0db90c 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -384,7 +384,7 @@ public:
     string(const string &v) { assign(v); }
 
     template <typename T> string &operator=(const T &v) { return assign(v); }
-    string &operator=(const string &v) { return assign(v); }
+    string &operator=(const string &v) { return &v == this ? *this : assign(v); }
     string &operator=(string &&v) noexcept {
         m_data = std::move(v.m_data);
         m_size = v.m_size;
-- 
2.43.0


From 3678ccf34d58d7d586cf690bd1e037d68996852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 06/32] fix: nanostl: formatting of the most negative integer
 relied on signed overflow

---
 include/drjit-core/nanostl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index a0db90c..01465ad 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -563,7 +563,7 @@ template <typename T> struct formatter<T, enable_if_t<std::is_integral_v<T>>> {
 
         if constexpr (std::is_signed_v<T>) {
             if (value < 0) {
-                value_u = UInt(-value);
+                value_u = UInt(UInt(0) - value_u);
                 is_negative = true;
             }
         }
-- 
2.43.0


From 4138d8e4dca19fc41cc5a5ddc3a523a529a8572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 07/32] fix: nanostl: unique_ptr, string: self-move destroyed
 the managed data

---
 include/drjit-core/nanostl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 01465ad..b51d6ef 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -53,8 +53,7 @@ public:
     ~unique_ptr() { reset(); }
 
     unique_ptr &operator=(unique_ptr &&other) noexcept {
-        reset(other.m_data);
-        other.m_data = nullptr;
+        reset(other.release());
         return *this;
     }
 
@@ -386,6 +385,8 @@ public:
     template <typename T> string &operator=(const T &v) { return assign(v); }
     string &operator=(const string &v) { return &v == this ? *this : assign(v); }
     string &operator=(string &&v) noexcept {
+        if (&v == this)
+            return *this;
         m_data = std::move(v.m_data);
         m_size = v.m_size;
         m_capacity = v.m_capacity;
-- 
2.43.0


From b470eac1e8fe210fc13f6f8a4b79b1b3f25c68c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 08/32] fix: avoid 32-bit overflow in CPU reductions,
 compression and aggregation near 2^32 elements

---
 src/common.h    |  3 ++-
 src/llvm_red.h  | 24 ++++++++++++------------
 src/llvm_ts.cpp | 40 +++++++++++++++++++++-------------------
 3 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/common.h b/src/common.h
index cde73c4..62b56cd 100644
--- a/src/common.h
+++ b/src/common.h
@@ -106,7 +106,8 @@ private:
 };
 
 inline uint32_t ceil_div(uint32_t a, uint32_t b) {
-    return (a + b - 1) / b;
+    // (a + b - 1) / b would overflow for large 'a'
+    return a / b + (a % b != 0);
 }
 
 /// Round 'x' up to the next multiple of 'a'
diff --git a/src/llvm_red.h b/src/llvm_red.h
index c5fad6b..0e5ff0f 100644
--- a/src/llvm_red.h
+++ b/src/llvm_red.h
@@ -101,15 +101,15 @@ static BlockReduction create_block_reduction_2() {
             uint32_t block_id = i / chunks_per_block,
                      chunk_within_block = i % chunks_per_block;
 
-            uint32_t block_rel_start = chunk_within_block * chunk_size,
-                     block_rel_end = std::min(block_rel_start + chunk_size, block_size);
+            uint64_t block_rel_start = (uint64_t) chunk_within_block * chunk_size,
+                     block_rel_end = std::min(block_rel_start + chunk_size, (uint64_t) block_size);
 
-            uint32_t block_offset = block_id * block_size,
+            uint64_t block_offset = (uint64_t) block_id * block_size,
                      start = block_rel_start + block_offset,
-                     end = std::min(block_rel_end + block_offset, size);
+                     end = std::min(block_rel_end + block_offset, (uint64_t) size);
 
             Value accum = Red::init();
-            for (uint32_t j = start; j < end; ++j)
+            for (uint64_t j = start; j < end; ++j)
                 accum = Red::reduce(accum, (Value) in[j]);
 
             out[i] = (T) accum;
@@ -143,12 +143,12 @@ static BlockPrefixReduction create_block_prefix_reduction_2() {
             uint32_t block_id = i / chunks_per_block,
                      chunk_within_block = i % chunks_per_block;
 
-            uint32_t block_rel_start = chunk_within_block * chunk_size,
-                     block_rel_end = std::min(block_rel_start + chunk_size, block_size);
+            uint64_t block_rel_start = (uint64_t) chunk_within_block * chunk_size,
+                     block_rel_end = std::min(block_rel_start + chunk_size, (uint64_t) block_size);
 
-            uint32_t block_offset = block_id * block_size,
+            uint64_t block_offset = (uint64_t) block_id * block_size,
                      start = block_rel_start + block_offset,
-                     end = std::min(block_rel_end + block_offset, size);
+                     end = std::min(block_rel_end + block_offset, (uint64_t) size);
 
             Value accum;
             if (scratch)
@@ -157,7 +157,7 @@ static BlockPrefixReduction create_block_prefix_reduction_2() {
                 accum = Red::init();
 
             if (!reverse) {
-                for (uint32_t j = start; j < end; ++j) {
+                for (uint64_t j = start; j < end; ++j) {
                     Value value = (Value) in[j],
                           prev  = accum;
 
@@ -165,8 +165,8 @@ static BlockPrefixReduction create_block_prefix_reduction_2() {
                     out[j] = exclusive ? prev : accum;
                 }
             } else {
-                for (uint32_t j = end; j > start; --j) {
-                    uint32_t k = j - 1;
+                for (uint64_t j = end; j > start; --j) {
+                    uint64_t k = j - 1;
                     Value value = (Value) in[k],
                           prev  = accum;
 
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 2b7a7a3..5309474 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -313,7 +313,7 @@ void LLVMThreadState::block_reduce(VarType vt, ReduceOp op, uint32_t size,
 
     void *buf = out;
     if (chunks_per_block > 1) {
-        buf = jitc_malloc(JitBackend::LLVM, tsize * chunk_count);
+        buf = jitc_malloc(JitBackend::LLVM, tsize * (size_t) chunk_count);
 
         jitc_log(Debug,
                  "jit_block_reduce(" DRJIT_PTR " -> " DRJIT_PTR
@@ -367,7 +367,7 @@ void LLVMThreadState::block_prefix_reduce(VarType vt, ReduceOp op,
             uint64_t ident = jitc_reduce_identity(vt, op);
             memset_async(out, size, tsize, &ident);
         } else if (in != out) {
-            memcpy_async(out, in, size * tsize);
+            memcpy_async(out, in, size * (size_t) tsize);
         }
         return;
     }
@@ -407,7 +407,7 @@ void LLVMThreadState::block_prefix_reduce(VarType vt, ReduceOp op,
 
     void *scratch = nullptr;
     if (chunks_per_block > 1) {
-        scratch = jitc_malloc(JitBackend::LLVM, tsize * chunk_count);
+        scratch = jitc_malloc(JitBackend::LLVM, tsize * (size_t) chunk_count);
 
         // Launch a block_reduce within block_prefix_reduce. We need to access to its
         // intermediate state, which is why the kernel is called directly here
@@ -491,21 +491,22 @@ void LLVMThreadState::reduce_dot(VarType type, const void *ptr_1,
     uint32_t block_size = size, blocks = 1;
     if (pool_size() > 1) {
         block_size = jitc_llvm_block_size;
-        blocks     = (size + block_size - 1) / block_size;
+        blocks     = ceil_div(size, block_size);
     }
 
     void *target = out;
     if (blocks > 1)
-        target = jitc_malloc(JitBackend::LLVM, blocks * tsize);
+        target = jitc_malloc(JitBackend::LLVM, blocks * (size_t) tsize);
 
     Reduction2 reduction = jitc_reduce_dot_create(type);
     submit_cpu(
         KernelType::Dot,
         this->recording_mode,
         [block_size, size, tsize, ptr_1, ptr_2, reduction, target](uint32_t index) {
-            reduction(ptr_1, ptr_2, index * block_size,
-                      std::min((index + 1) * block_size, size),
-                      (uint8_t *) target + index * tsize);
+            uint32_t start = index * block_size,
+                     end = start + std::min(block_size, size - start);
+            reduction(ptr_1, ptr_2, start, end,
+                      (uint8_t *) target + index * (size_t) tsize);
         },
 
         size,
@@ -713,7 +714,7 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
     uint32_t block_size = size, blocks = 1;
     if (pool_size() > 1) {
         block_size = jitc_llvm_block_size;
-        blocks     = (size + block_size - 1) / block_size;
+        blocks     = ceil_div(size, block_size);
     }
 
     uint32_t count_out = 0;
@@ -734,7 +735,7 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
             this->recording_mode,
             [block_size, size, in, scratch](uint32_t index) {
                 uint32_t start = index * block_size,
-                         end = std::min(start + block_size, size);
+                         end = start + std::min(block_size, size - start);
 
                 uint32_t accum = 0;
                 for (uint32_t i = start; i != end; ++i)
@@ -755,7 +756,7 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
         this->recording_mode,
         [block_size, size, scratch, in, out, &count_out](uint32_t index) {
             uint32_t start = index * block_size,
-                     end = std::min(start + block_size, size);
+                     end = start + std::min(block_size, size - start);
 
             uint32_t accum = 0;
             if (scratch)
@@ -804,13 +805,13 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
     if (ps > 1) {
         // Try to spread out uniformly over cores
         tasks_per_group = ps * 4;
-        task_size = (block_size + tasks_per_group - 1) / tasks_per_group;
+        task_size = ceil_div(block_size, tasks_per_group);
 
         // But don't make the tasks too small
         task_size = std::max(jitc_llvm_block_size, task_size);
 
         // Re-adjust task count given the selected task size
-        tasks_per_group = (block_size + task_size - 1) / task_size;
+        tasks_per_group = ceil_div(block_size, task_size);
     }
 
     uint32_t total_tasks = n_blocks * tasks_per_group;
@@ -960,7 +961,7 @@ void LLVMThreadState::aggregate(void *dst_, AggregationEntry *agg,
     uint32_t work_unit_size = size, work_units = 1;
     if (pool_size() > 1) {
         work_unit_size = jitc_llvm_block_size;
-        work_units     = (size + work_unit_size - 1) / work_unit_size;
+        work_units     = ceil_div(size, work_unit_size);
     }
 
     jitc_log(InfoSym,
@@ -973,7 +974,7 @@ void LLVMThreadState::aggregate(void *dst_, AggregationEntry *agg,
         this->recording_mode,
         [dst_, agg, size, work_unit_size](uint32_t index) {
             uint32_t start = index * work_unit_size,
-                     end = std::min(start + work_unit_size, size);
+                     end = start + std::min(work_unit_size, size - start);
 
             for (uint32_t i = start; i != end; ++i) {
                 AggregationEntry e = agg[i];
@@ -1019,7 +1020,7 @@ static void reduce_expanded_impl(void *ptr_, uint32_t start, uint32_t end,
     const uint32_t block = 128;
 
     uint32_t i = start;
-    for (; i + block <= end; i += block)
+    for (; end - i >= block; i += block)
         for (uint32_t j = 1; j < exp; ++j)
             for (uint32_t k = 0; k < block; ++k)
                 ptr[i + k] = op(ptr[i + k], ptr[i + k + j * size]);
@@ -1093,15 +1094,16 @@ void LLVMThreadState::reduce_expanded(VarType vt, ReduceOp op, void *ptr,
     uint32_t block_size = size, blocks = 1;
     if (pool_size() > 1) {
         block_size = jitc_llvm_block_size;
-        blocks     = (size + block_size - 1) / block_size;
+        blocks     = ceil_div(size, block_size);
     }
 
     submit_cpu(
         KernelType::BlockReduce,
         this->recording_mode,
         [ptr, block_size, exp, size, kernel](uint32_t index) {
-            kernel(ptr, index * block_size,
-                   std::min((index + 1) * block_size, size), exp, size);
+            uint32_t start = index * block_size,
+                     end = start + std::min(block_size, size - start);
+            kernel(ptr, start, end, exp, size);
         },
 
         size, std::max(1u, blocks));
-- 
2.43.0


From 8cd2e4db8c34b2a5412b686e4639a8a4ca5598cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 09/32] fix: block_mkperm: out-of-bounds accesses when the last
 group is partial

---
 src/llvm_ts.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 5309474..99c0083 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -839,16 +839,17 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
 
             uint32_t group = index / tasks_per_group;
             uint32_t task_in_group = index % tasks_per_group;
-            uint32_t group_start = group * block_size;
-            uint32_t start = group_start + task_in_group * task_size;
-            uint32_t end = std::min(start + task_size,
-                           std::min(group_start + block_size, size));
+            uint64_t group_start = (uint64_t) group * block_size;
+            uint64_t start = group_start + (uint64_t) task_in_group * task_size;
+            uint64_t end = std::min(start + task_size,
+                           std::min(group_start + block_size, (uint64_t) size));
 
             size_t bsize = sizeof(uint32_t) * (size_t) bucket_count;
             uint32_t *buckets_local = (uint32_t *) malloc_check(bsize);
             memset(buckets_local, 0, bsize);
 
-            for (uint32_t i = start; i != end; ++i)
+            // 'start' may exceed 'end' in the last (partial) group
+            for (uint64_t i = start; i < end; ++i)
                 buckets_local[ptr[i]]++;
 
             buckets[index] = buckets_local;
@@ -909,16 +910,16 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
 
             uint32_t group = index / tasks_per_group;
             uint32_t task_in_group = index % tasks_per_group;
-            uint32_t group_start = group * block_size;
-            uint32_t start = group_start + task_in_group * task_size;
-            uint32_t end = std::min(start + task_size,
-                           std::min(group_start + block_size, size));
+            uint64_t group_start = (uint64_t) group * block_size;
+            uint64_t start = group_start + (uint64_t) task_in_group * task_size;
+            uint64_t end = std::min(start + task_size,
+                           std::min(group_start + block_size, (uint64_t) size));
 
             uint32_t *buckets_local = buckets[index];
 
-            for (uint32_t i = start; i != end; ++i) {
+            for (uint64_t i = start; i < end; ++i) {
                 uint32_t idx = buckets_local[ptr[i]]++;
-                perm[idx] = i;
+                perm[idx] = (uint32_t) i;
             }
 
             free(buckets_local);
-- 
2.43.0


From 6ca002b8c50df904197912cf800902edcd91973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 10/32] fix: reductions of integer literals lost precision or
 overflowed

---
 src/var.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..becb414 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2416,14 +2416,28 @@ uint32_t jitc_var_compress(uint32_t index) {
 template <typename T> static void jitc_var_reduce_scalar_add(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(value * T(size));
+    if constexpr (std::is_integral_v<T>)
+        value = (T) ((uint64_t) value * size); // exact modulo 2^N
+    else
+        value = T((double) value * (double) size);
     memcpy(ptr, &value, sizeof(T));
 }
 
 template <typename T> static void jitc_var_reduce_scalar_mul(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(std::pow((double) value, (double) T(size)));
+    if constexpr (std::is_integral_v<T>) {
+        // Exponentiation by squaring, exact modulo 2^N
+        uint64_t base = (uint64_t) value, result = 1;
+        for (uint32_t i = size; i != 0; i >>= 1) {
+            if (i & 1)
+                result *= base;
+            base *= base;
+        }
+        value = (T) result;
+    } else {
+        value = T(std::pow((double) value, (double) size));
+    }
     memcpy(ptr, &value, sizeof(T));
 }
 
-- 
2.43.0


From 62dc03c4521ad0e0eb7b210b0d472dd3e9f7db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 11/32] fix: jitc_var_block_reduce: dangling variable pointer
 after creating a literal

---
 src/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index becb414..3e1ccd0 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2514,11 +2514,11 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
                 break; // Nothing to do for the other reducion types
         }
 
-        Ref result = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_header, reduced, 0));
+        Ref result = steal(jitc_var_literal(backend, vt, &value_header, reduced, 0));
 
         if (reduced * block_size != size) {
 
-            Ref trailer = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_trailer, reduced, 0)),
+            Ref trailer = steal(jitc_var_literal(backend, vt, &value_trailer, reduced, 0)),
                 counter = steal(jitc_var_counter(backend, reduced, true)),
                 limit = steal(jitc_var_u32(backend, reduced - 1)),
                 mask = steal(jitc_var_lt(counter, limit));
-- 
2.43.0


From af79b7dc3f9e9c5b5f63d6907f7acf16becc1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 12/32] fix: block prefix reductions of literals and undefined
 variables

The literal shortcut of jitc_var_block_prefix_reduce() returned the wrong
value for exclusive Min/Max scans, for reverse scans with a partial last
block, and for exclusive scans of infinities, and it divided by a zero
block size. Other operations on literal or undefined variables
dereferenced the literal payload, which jitc_var_eval() does not
materialize.
---
 src/var.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 3e1ccd0..6a74e27 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2831,11 +2831,18 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     JitBackend backend = (JitBackend) v->backend;
     uint32_t size = v->size;
 
+    if (unlikely(block_size == 0))
+        jitc_raise("jitc_var_block_prefix_reduce(): block_size cannot be 0!");
+
     if (v->is_literal()) {
-        if (op == ReduceOp::Max || op == ReduceOp::Min) {
+        if ((op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive) {
             jitc_var_inc_ref(index);
             return index;
-        } else if (op == ReduceOp::Add) {
+        } else if (op == ReduceOp::Add &&
+                   (jitc_is_int(v) || (!exclusive && vt != VarType::Float16)) &&
+                   (!reverse || size % block_size == 0)) {
+            // A multiplication by zero does not handle infinities, and the
+            // counter may exceed the range of half precision numbers
             Ref ctr = steal(jitc_var_counter(backend, size, true));
             if (block_size != size) {
                 Ref bsize = steal(jitc_var_u32(backend, block_size));
@@ -2859,12 +2866,9 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
         }
     }
 
-    if (!v->is_evaluated() || v->is_dirty()) {
-        jitc_var_eval(index);
-        v = jitc_var(index);
-    }
-
-    const void *data_in = v->data;
+    // Note: also materializes literals and undefined variables
+    void *data_in = nullptr;
+    Ref data = steal(jitc_var_data(index, true, &data_in));
 
     void *data_out =
         jitc_malloc(backend, (size_t) type_size[(int) vt] * size);
-- 
2.43.0


From a5e80f1f21fc49d6c93d2a1c540764ff6b935e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 13/32] fix: jit_block_prefix_reduce() swapped size and block
 size

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..b7890ad 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1332,7 +1332,7 @@ void jit_block_prefix_reduce(JitBackend backend, VarType type, ReduceOp op,
                              uint32_t block_size, uint32_t size, int exclusive,
                              int reverse, const void *in, void *out) {
     lock_guard guard(state.lock);
-    jitc_block_prefix_reduce(backend, type, op, block_size, size,
+    jitc_block_prefix_reduce(backend, type, op, size, block_size,
                              exclusive != 0, reverse != 0, in, out);
 }
 
-- 
2.43.0


From e9c43f9cfc0a0637915a12cbc0af2452ae627ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 14/32] fix: jit_reduce() definition does not match its
 declaration

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index b7890ad..8c25317 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1301,7 +1301,7 @@ void jit_memcpy_async(JitBackend backend, void *dst, const void *src, size_t siz
 }
 
 void jit_reduce(JitBackend backend, VarType type, ReduceOp op,
-                uint32_t size, const void *in, void *out) {
+                const void *in, uint32_t size, void *out) {
     lock_guard guard(state.lock);
     jitc_reduce(backend, type, op, size, in, out);
 }
-- 
2.43.0


From fc2f57a3bb82508c3f9be355c3445be7f877d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 15/32] fix: jitc_var_reduce_dot: crash when one operand is a
 literal or undefined

The fast path used the literal payload as a pointer, since jitc_var_eval()
does not materialize such variables.
---
 src/var.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 6a74e27..0af256c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2744,20 +2744,16 @@ uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
         jitc_raise("jitc_var_reduce_dot(): incompatible types!");
 
     if (jitc_is_float(v1) && v1->size == v2->size &&
-        (v1->is_evaluated() || v2->is_evaluated())) {
+        (v1->is_evaluated() || v2->is_evaluated()) &&
+        !v1->is_literal() && !v2->is_literal()) {
         uint32_t size = v1->size;
 
         // Fast path
-        bool eval = jitc_var_eval(index_1);
-        eval |= (bool)jitc_var_eval(index_2);
-        if (eval) {
-            v1 = jitc_var(index_1);
-            v2 = jitc_var(index_2);
-        }
+        void *ptr_1 = nullptr, *ptr_2 = nullptr;
+        Ref data_1 = steal(jitc_var_data(index_1, true, &ptr_1)),
+            data_2 = steal(jitc_var_data(index_2, true, &ptr_2));
 
-        void *ptr_1 = v1->data,
-             *ptr_2 = v2->data,
-             *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
+        void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
 
         jitc_reduce_dot(backend, vt, ptr_1, ptr_2, size, data);
 
-- 
2.43.0


From 137afb20439dff6f5e3afd4c26291301de3af3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 16/32] fix: reductions of undefined variables

jitc_var_eval() does not materialize undefined variables, hence
jitc_var_reduce(), jitc_var_block_reduce() and jitc_var_any/all(_async)
passed an invalid pointer to the reduction.
---
 src/var.cpp | 51 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 0af256c..18bb8ac 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2306,10 +2306,12 @@ bool jitc_var_any(uint32_t index) {
     if (v->is_literal())
         return (bool) v->literal;
 
-    if (jitc_var_eval(index))
-        v = jitc_var(index);
+    // Note: also materializes undefined variables
+    void *data_in = nullptr;
+    Ref data = steal(jitc_var_data(index, true, &data_in));
+    v = jitc_var(data);
 
-    return jitc_any((JitBackend) v->backend, (uint8_t *) v->data, v->size);
+    return jitc_any((JitBackend) v->backend, (uint8_t *) data_in, v->size);
 }
 
 uint32_t jitc_var_any_async(JitBackend backend, uint32_t index) {
@@ -2328,12 +2330,14 @@ uint32_t jitc_var_any_async(JitBackend backend, uint32_t index) {
     if (v->kind == (uint32_t) VarKind::DefaultMask)
         return jitc_var_bool(backend, true);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
+    // Note: also materializes undefined variables
+    void *data_in = nullptr;
+    Ref data = steal(jitc_var_data(index, true, &data_in));
+    v = jitc_var(data);
 
-    jitc_var_eval(index);
-    v = jitc_var(index);
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
 
-    jitc_any_async(backend, (uint8_t *) v->data, v->size, mem);
+    jitc_any_async(backend, (uint8_t *) data_in, v->size, mem);
 
     return jitc_var_mem_map(backend, VarType::Bool, mem, 1, 1);
 }
@@ -2350,10 +2354,12 @@ bool jitc_var_all(uint32_t index) {
     if (v->is_literal())
         return (bool) v->literal;
 
-    if (jitc_var_eval(index))
-        v = jitc_var(index);
+    // Note: also materializes undefined variables
+    void *data_in = nullptr;
+    Ref data = steal(jitc_var_data(index, true, &data_in));
+    v = jitc_var(data);
 
-    return jitc_all((JitBackend) v->backend, (uint8_t *) v->data, v->size);
+    return jitc_all((JitBackend) v->backend, (uint8_t *) data_in, v->size);
 }
 
 uint32_t jitc_var_all_async(JitBackend backend, uint32_t index) {
@@ -2369,12 +2375,14 @@ uint32_t jitc_var_all_async(JitBackend backend, uint32_t index) {
     if (v->is_literal())
         return jitc_var_bool(backend, (bool) v->literal);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
+    // Note: also materializes undefined variables
+    void *data_in = nullptr;
+    Ref data = steal(jitc_var_data(index, true, &data_in));
+    v = jitc_var(data);
 
-    jitc_var_eval(index);
-    v = jitc_var(index);
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
 
-    jitc_all_async(backend, (uint8_t *) v->data, v->size, mem);
+    jitc_all_async(backend, (uint8_t *) data_in, v->size, mem);
 
     return jitc_var_mem_map(backend, VarType::Bool, mem, 1, 1);
 }
@@ -2559,14 +2567,16 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
 
         return jitc_var_scatter(target, index, offset, t_mask, op, ReduceMode::Auto);
     } else if (symbolic == 0) {
-        jitc_var_eval(index);
+        // Note: also materializes undefined variables
+        void *data_in = nullptr;
+        Ref data = steal(jitc_var_data(index, true, &data_in));
 
         jitc_log(Debug, "jit_var_block_reduce(r%u, block_size=%u)", index, block_size);
 
         void *out =
             jitc_malloc(backend, reduced * (size_t) type_size[(int) vt]);
         Ref out_v = steal(jitc_var_mem_map(backend, vt, out, reduced, 1));
-        jitc_block_reduce(backend, vt, op, size, block_size, jitc_var(index)->data, out);
+        jitc_block_reduce(backend, vt, op, size, block_size, data_in, out);
 
         return out_v.release();
     } else {
@@ -2712,11 +2722,10 @@ uint32_t jitc_var_reduce(JitBackend backend, VarType vt, ReduceOp op,
     jitc_log(Debug, "jit_var_reduce(r%u, op=%s)", index,
              red_name[(int) op]);
 
-    if (jitc_var_eval(index))
-        v = jitc_var(index);
-
-    uint8_t *values = (uint8_t *) v->data;
-    uint32_t size = v->size;
+    // Note: also materializes undefined variables
+    void *values = nullptr;
+    Ref data_in = steal(jitc_var_data(index, true, &values));
+    uint32_t size = jitc_var(data_in)->size;
 
     void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
     jitc_block_reduce(backend, vt, op, size, size, values, data);
-- 
2.43.0


From 4ef3c89d35a95904dc4eab5625e6b5a0f9f6ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 17/32] fix: jit_var_neq(x, x) must be true for NaN lanes

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..66c7dfb 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1145,7 +1145,7 @@ uint32_t jitc_var_neq(uint32_t a0, uint32_t a1) {
         if (info.literal)
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 != l1; }, v0, v1);
-        else if (a0 == a1)
+        else if (a0 == a1 && !jitc_is_float(v0))
             result = jitc_make_zero(info);
     }
 
-- 
2.43.0


From a797961db78d1bf3c69676aafc9ce5cc7003e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 18/32] fix: constant-folded minimum/maximum of zeros with
 opposite signs

---
 src/op.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 66c7dfb..8680e4f 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -827,8 +827,21 @@ uint32_t jitc_var_fma(uint32_t a0, uint32_t a1, uint32_t a2) {
 // --------------------------------------------------------------------------
 
 /// IEEE-754-2019 'minimum'/'maximum': a NaN operand makes the result NaN
-template <typename T> T eval_min(T v0, T v1) { return (v0 < v1 || v0 != v0) ? v0 : v1; }
-template <typename T> T eval_max(T v0, T v1) { return (v0 > v1 || v0 != v0) ? v0 : v1; }
+template <typename T> T eval_min(T v0, T v1) {
+    if constexpr (drjit::detail::is_floating_point_v<T>) {
+        if (v0 == v1) // the standard orders -0 before +0
+            return std::signbit((double) v0) ? v0 : v1;
+    }
+    return (v0 < v1 || v0 != v0) ? v0 : v1;
+}
+
+template <typename T> T eval_max(T v0, T v1) {
+    if constexpr (drjit::detail::is_floating_point_v<T>) {
+        if (v0 == v1) // the standard orders -0 before +0
+            return std::signbit((double) v0) ? v1 : v0;
+    }
+    return (v0 > v1 || v0 != v0) ? v0 : v1;
+}
 
 /// IEEE-754-2008 'minNum'/'maxNum': a NaN operand is ignored unless both are NaNs
 template <typename T> T eval_fmin(T v0, T v1) { return (v0 < v1 || v1 != v1) ? v0 : v1; }
-- 
2.43.0


From 781c1843d2189d4fc5c4d132cd45436cafb5b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 19/32] fix: null pointer dereference in jit_var_mod() for
 empty operands

---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 8680e4f..7de3bd1 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -668,6 +668,9 @@ T eval_mod(T v0, T v1) {
 uint32_t jitc_var_mod(uint32_t a0, uint32_t a1) {
     auto [info, v0, v1] = jitc_var_check<IsIntOrBool>("jit_var_mod", a0, a1);
 
+    if (!info.size) // empty operands
+        return 0;
+
     uint32_t result = 0;
     if (info.simplify && info.literal) {
         result = jitc_eval_literal(
-- 
2.43.0


From b53530757e895081d78e4027d8b6b723f0b88699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 20/32] fix: null pointer dereference in jit_var_select() for
 empty operands

---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 7de3bd1..a665b08 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1285,6 +1285,9 @@ uint32_t jitc_var_ge(uint32_t a0, uint32_t a1) {
 uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
     auto [info, v0, v1, v2] = jitc_var_check<ArrayAllowed | IgnoreTypes>("jit_var_select", a0, a1, a2);
 
+    if (!info.size) // empty operands
+        return 0;
+
     if (info.size &&
         (!jitc_is_bool(v0) || v1->type != v2->type ||
          (v1->is_array() != v2->is_array())))
-- 
2.43.0


From 836e4651d83c2a07afa064b08b01eed547cb224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 21/32] fix: jit_var_mul_wide() rejected empty operands

---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index a665b08..d47d9b3 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -742,6 +742,9 @@ uint32_t jitc_var_mul_hi(uint32_t a0, uint32_t a1) {
 uint32_t jitc_var_mul_wide(uint32_t a0, uint32_t a1) {
     auto [info, v0, v1] = jitc_var_check<IsInt>("jit_var_mul_wide", a0, a1);
 
+    if (!info.size) // empty operands
+        return 0;
+
     switch (info.type) {
         case VarType::UInt32: info.type = VarType::UInt64; break;
         case VarType::Int32:  info.type = VarType::Int64; break;
-- 
2.43.0


From dc37d53eff77f928232e131b4594b2c9e48a39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 22/32] fix: jit_var_copysign() of integer literals terminated
 the application

---
 src/op.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index d47d9b3..19ecced 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -991,8 +991,13 @@ uint32_t jitc_var_fmax(uint32_t a0, uint32_t a1) {
 template <typename T, enable_if_t<drjit::detail::is_floating_point_v<T>> = 0>
 T eval_copysign(T v0, T v1) { return T(std::copysign(v0, v1)); }
 
-template <typename T, enable_if_t<!drjit::detail::is_floating_point_v<T>> = 0>
-T eval_copysign(T, T) { jitc_fail("eval_copysign(): unsupported operands!"); }
+template <typename T, enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>> = 0>
+T eval_copysign(T v0, T v1) {
+    T pos = eval_abs(v0);
+    return v1 < T(0) ? eval_neg(pos) : pos;
+}
+
+static bool eval_copysign(bool, bool) { jitc_fail("eval_copysign(): unsupported operands!"); }
 
 uint32_t jitc_var_copysign(uint32_t a0, uint32_t a1) {
     auto [info, v0, v1] = jitc_var_check<IsArithmetic>("jit_var_copysign", a0, a1);
-- 
2.43.0


From 2c6590dba23952ca5aece68a2c7d7807b7a6301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 23/32] fix: detect pending side effects of the third and
 fourth operand

---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 18bb8ac..dc9fa45 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1270,7 +1270,7 @@ uint32_t jitc_var_new_node_3(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
     }
 
@@ -1309,11 +1309,11 @@ uint32_t jitc_var_new_node_4(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
 
         v3 = jitc_var(a3);
-        if (v1->is_dirty())
+        if (v3->is_dirty())
             jitc_raise_dirty_error(a3);
     }
 
-- 
2.43.0


From acd8be3b8a9abc9a63800a270fc62d3c8cfcdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 24/32] fix: simplified operations resized an operand of the
 caller in place

jit_var_resize() changes a variable in place when it is unevaluated and has
a single reference. The simplification rules of op.cpp and coop_vec.cpp
(x + 0, x * 1, x & x, ...) invoked it on their operands, hence an expression
such as 'x + zeros(10)' changed the size of the caller's variable 'x'.
---
 src/coop_vec.cpp |  3 +++
 src/op.cpp       | 69 ++++++++++++++++++++++++++----------------------
 2 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 20200ea..e5856b1 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -277,6 +277,9 @@ uint32_t jitc_coop_vec_binary_op(JitOp op, uint32_t a0, uint32_t a1) {
 
     uint32_t max_size = std::max(a0_v->size, a1_v->size);
 
+    // Temporarily hold extra references to prevent 'jitc_var_resize' from changing 'a0', 'a1'
+    Ref unused0 = borrow(a0), unused1 = borrow(a1);
+
     // Exploit some basic optimization opportunities (useful for AD)
     switch (op) {
         case JitOp::Add:
diff --git a/src/op.cpp b/src/op.cpp
index 19ecced..494d159 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -387,6 +387,13 @@ uint32_t jitc_var_shift(const OpInfo &info, uint32_t index, uint64_t amount) {
 
 // --------------------------------------------------------------------------
 
+/// Resize the operand of a simplified operation to the size of the result
+static uint32_t jitc_var_broadcast(uint32_t index, uint32_t size) {
+    // Temporarily hold an extra reference to prevent 'jitc_var_resize' from changing 'index'
+    Ref unused = borrow(index);
+    return jitc_var_resize(index, size);
+}
+
 template <typename T, enable_if_t<!drjit::detail::is_signed_v<T>> = 0>
 T eval_neg(T v) { return T(-(std::make_signed_t<T>) v); }
 
@@ -514,9 +521,9 @@ uint32_t jitc_var_add(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 + l1; }, v0, v1);
         else if (jitc_is_any_zero(v0))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (jitc_is_any_zero(v1))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size && needs_f32_upcast(info, VarKind::Add))
@@ -541,7 +548,7 @@ uint32_t jitc_var_sub(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 - l1; }, v0, v1);
         else if (jitc_is_any_zero(v1))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         else if (a0 == a1 && !jitc_is_float(v0))
             result = jitc_make_zero(info);
     }
@@ -570,9 +577,9 @@ uint32_t jitc_var_mul(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 * l1; }, v0, v1);
         else if (jitc_is_one(v0) || (jitc_is_any_zero(v1) && (jitc_is_int(v0) || fast_math)))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (jitc_is_one(v1) || (jitc_is_any_zero(v0) && (jitc_is_int(v0) || fast_math)))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         else if (jitc_is_uint(info.type) && v0->is_literal() && jitc_is_pow2(v0->literal))
             result = jitc_var_shift<true>(info, a1, v0->literal);
         else if (jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal))
@@ -617,7 +624,7 @@ uint32_t jitc_var_div(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_div(l0, l1); }, v0, v1);
         } else if (jitc_is_one(v1)) {
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         } else if (jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
             result = jitc_var_shift<false>(info, a0, v1->literal);
         } else if (jitc_is_float(info.type) && !jitc_is_half(info.type) && v1->is_literal()) {
@@ -724,9 +731,9 @@ uint32_t jitc_var_mul_hi(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_mul_hi(l0, l1); }, v0, v1);
         else if (jitc_is_zero(v0))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         else if (jitc_is_zero(v1))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
     }
 
     if (!result && info.size)
@@ -864,13 +871,13 @@ uint32_t jitc_var_min(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_min(l0, l1); }, v0, v1);
         else if (a0 == a1)
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         // '+inf' is a neutral element, while '-inf' only absorbs the other
         // operand when that one cannot be a NaN
         else if (jitc_is_max(v0) || (!is_float && jitc_is_min(v1)))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (jitc_is_max(v1) || (!is_float && jitc_is_min(v0)))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size && needs_f32_upcast(info, VarKind::Min))
@@ -897,13 +904,13 @@ uint32_t jitc_var_max(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_max(l0, l1); }, v0, v1);
         else if (a0 == a1)
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         // '-inf' is a neutral element, while '+inf' only absorbs the other
         // operand when that one cannot be a NaN
         else if (jitc_is_min(v0) || (!is_float && jitc_is_max(v1)))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (jitc_is_min(v1) || (!is_float && jitc_is_max(v0)))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size && needs_f32_upcast(info, VarKind::Max))
@@ -932,13 +939,13 @@ uint32_t jitc_var_fmin(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_fmin(l0, l1); }, v0, v1);
         else if (a0 == a1)
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         // '-inf' absorbs the other operand. '+inf' is not neutral here,
         // since 'fmin(inf, nan)' is 'inf' rather than a NaN.
         else if (jitc_is_min(v1))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (jitc_is_min(v0))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size && needs_f32_upcast(info, VarKind::FMin))
@@ -966,13 +973,13 @@ uint32_t jitc_var_fmax(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_fmax(l0, l1); }, v0, v1);
         else if (a0 == a1)
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         // '+inf' absorbs the other operand. '-inf' is not neutral here,
         // since 'fmax(-inf, nan)' is '-inf' rather than a NaN.
         else if (jitc_is_max(v1))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (jitc_is_max(v0))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size && needs_f32_upcast(info, VarKind::FMax))
@@ -1008,7 +1015,7 @@ uint32_t jitc_var_copysign(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_copysign(l0, l1); }, v0, v1);
         else if (a0 == a1)
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     // Integer types have no dedicated instruction, expand into a selection
@@ -1306,9 +1313,9 @@ uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
     uint32_t result = 0;
     if (info.simplify || a1 == a2) {
         if (jitc_is_one(v0) || a1 == a2)
-            return jitc_var_resize(a1, info.size);
+            return jitc_var_broadcast(a1, info.size);
         else if (jitc_is_zero(v0))
-            return jitc_var_resize(a2, info.size);
+            return jitc_var_broadcast(a2, info.size);
     }
 
     if (!result && info.size) {
@@ -1498,9 +1505,9 @@ uint32_t jitc_var_and(uint32_t a0, uint32_t a1) {
         else if (jitc_is_zero(v0) || jitc_is_zero(v1))
             result = jitc_make_zero(info);
         else if ((jitc_is_one(v1) && jitc_is_bool(v1)) || a0 == a1)
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         else if (jitc_is_one(v0) && jitc_is_bool(v0))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
     }
 
     if (!result && info.size)
@@ -1533,9 +1540,9 @@ uint32_t jitc_var_or(uint32_t a0, uint32_t a1) {
                 info, [](auto l0, auto l1) { return eval_or(l0, l1); }, v0, v1);
         else if ((jitc_is_bool(v0) && jitc_is_one(v1)) ||
                  (jitc_is_zero(v0) && v0->type == v1->type) || a0 == a1)
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if ((jitc_is_bool(v0) && jitc_is_one(v0)) || jitc_is_zero(v1))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size)
@@ -1564,9 +1571,9 @@ uint32_t jitc_var_xor(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_xor(l0, l1); }, v0, v1);
         else if (jitc_is_zero(v1))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
         else if (jitc_is_zero(v0))
-            result = jitc_var_resize(a1, info.size);
+            result = jitc_var_broadcast(a1, info.size);
         else if (a0 == a1)
             result = jitc_make_zero(info);
     }
@@ -1599,7 +1606,7 @@ uint32_t jitc_var_shl(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_shl(l0, l1); }, v0, v1);
         else if (jitc_is_zero(v0) || jitc_is_zero(v1))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size)
@@ -1627,7 +1634,7 @@ uint32_t jitc_var_shr(uint32_t a0, uint32_t a1) {
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_shr(l0, l1); }, v0, v1);
         else if (jitc_is_zero(v0) || jitc_is_zero(v1))
-            result = jitc_var_resize(a0, info.size);
+            result = jitc_var_broadcast(a0, info.size);
     }
 
     if (!result && info.size)
-- 
2.43.0


From 5d57e546fcf2ec407a3f68d0ee55c22ffa86de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 25/32] fix: jit_var_resize() copied the stashed reference
 count to its result

The array_length field shares its storage with ref_count_stashed. The result
of broadcasting a variable whose reference count was stashed hence carried a
stale count, and a scatter to it wrote through to its other references.
---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index dc9fa45..7e42ac8 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2041,7 +2041,9 @@ uint32_t jitc_var_resize(uint32_t index, size_t size) {
         v2.size = (uint32_t) size;
         v2.dep[0] = index;
         v2.coop_vec = v->coop_vec;
-        v2.array_length = v->array_length;
+        // This field otherwise stores a reference count, see jitc_var_stash_ref()
+        if (v->coop_vec)
+            v2.array_length = v->array_length;
         jitc_var_inc_ref(index, v);
         result = jitc_var_new(v2, true);
     }
-- 
2.43.0


From 5c556b7a6e576c7b9df85f17932cea2d80f7abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 26/32] fix: jit_var_migrate() copied the stashed reference
 count to its result

---
 src/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/var.cpp b/src/var.cpp
index 7e42ac8..d5bf70b 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2159,6 +2159,8 @@ uint32_t jitc_var_migrate(uint32_t src_index, JitBackend dst_backend) {
         v2.retain_data = false;
         v2.ref_count = 0;
         v2.ref_count_se = 0;
+        if (!v2.is_array() && !v2.coop_vec)
+            v2.ref_count_stashed = 0;
         v2.extra = 0;
         dst_index = jitc_var_new(v2);
     } else {
-- 
2.43.0


From c7f58ee846b83715b2fa64045bea79311abb1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 27/32] fix: LLVM scatter-reductions dropped NaN values

The local and conflict-free reductions skip lanes that hold the identity,
but used an ordered comparison that is also false for NaN.
---
 src/llvm_scatter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 2301d72..f7c9d04 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -235,7 +235,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = reduce_op_name[(int) op],
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v) ? "fcmp une" : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
 
@@ -331,7 +331,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = reduce_op_name[(int) op],
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v) ? "fcmp une" : "icmp ne";
 
 
     auto [vector_reduce_name, vector_reduce_modifier, vector_reduce_identity,
-- 
2.43.0


From 06bd62aea74ea84abcf3985fc94b95485a863000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 28/32] fix: traced float '!=' and conversions to bool treated
 NaN as equal to zero

Literal folding, the Metal backend and IEEE 754 define NaN != x as true. The
LLVM and CUDA backends emitted ordered comparisons, for which it is false.
---
 src/cuda_eval.cpp | 6 ++++--
 src/llvm_eval.cpp | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cuda_eval.cpp b/src/cuda_eval.cpp
index 85431ae..f38bbeb 100644
--- a/src/cuda_eval.cpp
+++ b/src/cuda_eval.cpp
@@ -850,7 +850,9 @@ static void jitc_cuda_render(Variable *v) {
 
         case VarKind::Neq:
             if (!jitc_is_bool(a0))
-                fmt("    setp.ne.$t $v, $v, $v;\n", a0, v, a0, a1);
+                fmt(jitc_is_float(a0) ? "    setp.neu.$t $v, $v, $v;\n"
+                                      : "    setp.ne.$t $v, $v, $v;\n",
+                    a0, v, a0, a1);
             else
                 fmt("    xor.$t $v, $v, $v;\n", v, v, a0, a1);
             break;
@@ -1039,7 +1041,7 @@ static void jitc_cuda_render(Variable *v) {
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
                 fmt(jitc_is_float(a0) && !jitc_is_half(a0)
-                    ? "    setp.ne.$t $v, $v, 0.0;\n"
+                    ? "    setp.neu.$t $v, $v, 0.0;\n"
                     : "    setp.ne.$b $v, $v, 0;\n",
                     a0, v, a0);
             } else if (jitc_is_bool(a0)) {
diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba6e8aa..a7b09ba 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -834,7 +834,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::Neq:
-            fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $v\n"
+            fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $v\n"
                                   : "    $v = icmp ne $V, $v\n", v, a0, a1);
             break;
 
@@ -956,7 +956,7 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
-                fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $z\n"
+                fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $z\n"
                                       : "    $v = icmp ne $V, $z\n",
                     v, a0);
             } else if (jitc_is_bool(a0)) {
-- 
2.43.0


From bd49eb9386db0c72421723f914909b1870e9b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 29/32] fix: gathers from a literal or uninitialized variable
 whose index has a callback attached used the literal payload as an address

---
 src/op.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 494d159..d376fd1 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2232,8 +2232,11 @@ uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
     }
 
     // At this point, we *will* have to evalute the source, if not done already.
-    if (!result)
-        jitc_var_eval(src);
+    // (literal/undefined variables with an attached callback can get here)
+    if (!result) {
+        void *unused = nullptr;
+        src = steal(jitc_var_data(src, true, &unused));
+    }
 
     /// Perform a memcpy when this is a size-1 literal load
     /// (if not in a function freezing scope)
-- 
2.43.0


From 86f551c3ce5f0ed56439506c02ef87d294d12add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 30/32] fix: registry kept entries of deleted domains after a
 shutdown

---
 src/registry.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..062c00f 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -250,8 +250,10 @@ void jitc_registry_shutdown() {
         if (!r.rev_map.empty()) {
             std::vector<size_t> leak_counts(r.domains.size(), 0);
 
-            for (const auto &entry : r.rev_map)
-                leak_counts.at(entry.second.domain_id)++;
+            for (const auto &entry : r.rev_map) {
+                if (entry.second.domain_id != UINT32_MAX)
+                    leak_counts.at(entry.second.domain_id)++;
+            }
 
             for (size_t i = 0; i < r.domains.size(); i++) {
                 if (leak_counts[i] > 0)
@@ -262,6 +264,10 @@ void jitc_registry_shutdown() {
         }
     }
 
+    // Leaked instances may be unregistered after the domains have been deleted
+    for (auto it = r.rev_map.begin(); it != r.rev_map.end(); ++it)
+        it.value() = ReverseKey { UINT32_MAX, UINT32_MAX };
+
     r.domain_ids.clear();
     r.domains.clear();
 }
-- 
2.43.0


From 6766f2beb42e126f95b544116c725eb19e7f91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 31/32] fix: variables waiting to be freed could be revived by
 callbacks of other variables

---
 src/var.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index d5bf70b..924ff06 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -446,10 +446,16 @@ JIT_NOINLINE void jitc_var_free(uint32_t index, Variable *v) noexcept {
                 v2->ref_count--;
 
                 if (v2->ref_count == 0 && v2->ref_count_se == 0) {
-                    if (!index)
+                    if (!index) {
                         index = index2; // free this variable next
-                    else
+                    } else {
+                        // Callbacks of other variables may run before this one
+                        // is freed. They must not find (and revive) it.
+                        if (!v2->is_evaluated())
+                            jitc_lvn_drop(index2, v2);
+                        v2->counter++;
                         free_todo.push_back(index2); // push on TODO list
+                    }
                 }
             }
         } else if (dep[3]) {
-- 
2.43.0


From 19b7ad4516fde4327486bd2e8a35c9bfb37f310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 32/32] fix: jit_var_expand() lost pending side effects of the
 expanded array

---
 src/var.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var.cpp b/src/var.cpp
index 924ff06..1ed41d6 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2934,6 +2934,11 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
                    "not possible, as this would expand the array size beyond 4 "
                    "billion entries!");
 
+    // Pending side effects still write to the unexpanded array. Flush them
+    // before copying its contents, they would otherwise be lost.
+    if (v->is_dirty())
+        jitc_var_eval(index, !jit_flag(JitFlag::SymbolicScope));
+
     uint64_t identity = jitc_reduce_identity(vt, op);
 
     Ref dst;
-- 
2.43.0

