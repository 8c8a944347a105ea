From dd114057a40200627616b88e7bbaf647871069b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 01/47] fix: write the superblock size in every frame whose
 header announces it

A time limited compression selects a superblock size announced with the 255
shift code, but the size itself was only written when a custom block size was
set: such frames could not be decompressed. Conversely, a time limited
compression with a custom block size falling back to a standard size wrote 4
unannounced bytes.
---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..27726cc 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -865,7 +865,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
+	if (opts->shift == 255) {
 		// Write custom superblock size
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From ac9b19e41025fd0d018015f27384db5d31a31af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 02/47] fix: decompress frames whose size is a multiple of the
 superblock size

The last superblock was always given the remainder of the division as
decompressed size, hence 0 when the input is an exact multiple of the
superblock size.
---
 stenos/internal/stenos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 27726cc..f424638 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1128,7 +1128,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 			uint8_t code = *src++;
 			unsigned csize = stenos::read_uint32_3(src);
-			unsigned dsize = (i == super_block_count - 1) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
+			unsigned dsize = (i == super_block_count - 1 && super_block_remaining) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
 			src += 3;
 			if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
 				return STENOS_ERROR_INVALID_INPUT;
@@ -1170,7 +1170,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 			uint8_t code = *src++;
 			unsigned csize = stenos::read_uint32_3(src);
-			unsigned dsize = (chunks - (size_t)i - 1 == 0) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
+			unsigned dsize = (chunks - (size_t)i - 1 == 0 && super_block_remaining) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
 			src += 3;
 			if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
 				return STENOS_ERROR_INVALID_INPUT;
-- 
2.43.0


From b85557cab49fac87ea1c964a886aca081c223051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 03/47] fix: forget the outcome of a previous time limited
 compression

finish_memcpy was only reset by time limited compressions: once a time limit
had been exceeded, all later compressions with the same context and no time
limit silently stored their input uncompressed.
---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index f424638..82494fb 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -175,9 +175,9 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-- 
2.43.0


From 3252a38a1f1f4b444108bc272fb84347787c3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 04/47] fix: stenos_reset_context() also resets the custom
 block size

The function is documented to reset the context to its initial parameters,
but a custom superblock size survived it.
---
 stenos/internal/stenos.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 82494fb..c2b6972 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -244,11 +244,8 @@ void stenos_destroy_context(stenos_context* ctx)
 
 void stenos_reset_context(stenos_context* ctx)
 {
-	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
-	}
+	if (ctx)
+		ctx->reset_parameters();
 }
 
 size_t stenos_set_level(stenos_context* ctx, int level)
-- 
2.43.0


From 51c6b5f088c74c2d976bb34765bd21aff2571750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 05/47] fix: stenos_get_info() rejects an invalid bytesoftype

A null bytesoftype caused a division by zero.
---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index c2b6972..1ec6457 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1023,6 +1023,10 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 	if STENOS_UNLIKELY (src + 8 > end_src)
 		return STENOS_ERROR_SRC_OVERFLOW;
 
+	// Check bytesoftype validity
+	if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+		return STENOS_ERROR_INVALID_BYTESOFTYPE;
+
 	uint8_t shift = *src++;
 	if STENOS_UNLIKELY (shift > 4 && shift != 255)
 		return STENOS_ERROR_INVALID_INPUT;
-- 
2.43.0


From 900ff5709057840f5bbf791dd7cfcbd426aba3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 06/47] fix: stenos_decompress_generic() rejects invalid
 superblock sizes

A frame header announcing a null superblock size caused a division by zero,
and sizes above the allowed maximum gigabytes of useless allocations.
---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 1ec6457..a85bf32 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1107,6 +1107,10 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// Default superblock size
 		superblock_size = stenos::super_block_size(block_size) << shift;
 
+	// Check superblock size validity
+	if STENOS_UNLIKELY (superblock_size == 0 || superblock_size >= STENOS_MAX_BLOCK_BYTES)
+		return STENOS_ERROR_INVALID_INPUT;
+
 	// Clear buffers
 	if (superblock_size != opts->superblock_size)
 		opts->clear_buffers();
-- 
2.43.0


From a9a4003065d72013955d4890dd6236faac05e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 07/47] fix: stenos_make_context() returns NULL when the
 allocation fails

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index a85bf32..77a2ab9 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -231,6 +231,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
-- 
2.43.0


From cde2eccb1b804e01d74dd00f07aa88b21572199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 08/47] fix: reserve enough memory to compress a partial block

The buffer used to pad a partial block needs 256 elements, but only 256 bytes
were reserved for it: for elements of 19 bytes or more the heap was
overwritten.
---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..22b116b 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype * 2);
+				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype * 2 + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 256 * bytesoftype * 2 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0


From 37d48e28ad38055978d8d8cb0fe28750f2a0ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 09/47] fix: do not read past the end of the source when
 decoding a RLE row

One byte beyond the compressed input was read when the last row of a frame
does not start with a repeated value.
---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 22b116b..e10f8cd 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1955,7 +1955,7 @@ namespace stenos
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From 3b973f35190a6e02eea44c0c3b8f2983774c0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 10/47] fix: check block decoder reads against the bounds of
 its buffers

Corrupted frames made the block decoder read past the end of the source
(memcpy blocks, truncated LZ groups), before the start of the destination
(LZ offsets) or through a null pointer (truncated partial blocks) instead of
returning an error.
---
 stenos/internal/block_compress.h | 14 ++++++++++++++
 stenos/internal/lz_compress.h    |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index e10f8cd..cd70149 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1683,9 +1683,16 @@ namespace stenos
 			// decode rows
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
+				// check overflow
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
 			}
+			if STENOS_UNLIKELY (!src)
+				return nullptr;
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
 			}
@@ -1728,6 +1735,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY (src + lines / 2 + (lines & 1) > end)
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
@@ -1822,6 +1832,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2117,6 +2129,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..24fb65e 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,16 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in == end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					if STENOS_UNLIKELY (offset == 0 || (size_t)(dst - _dst) < (size_t)offset * Bytes)
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From e49ace4126afefe94911c5a6fe2d8b7293738846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 11/47] fix: reject superblocks which do not produce the
 announced bytes

Decompressing a corrupted frame reported a success, leaving (part of) the
destination untouched, when a zstd superblock was shorter than announced or a
block superblock was empty or had extraneous bytes.
---
 stenos/internal/stenos.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 77a2ab9..aebf337 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -687,13 +687,13 @@ namespace stenos
 			case STENOS_FRAME_HEADER_BLOCK: {
 				// Direct block compression
 				auto r = block_decompress_generic(src, csize, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				if STENOS_UNLIKELY (has_error(r) || r == 0 || r != csize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
@@ -732,8 +732,9 @@ namespace stenos
 				if STENOS_UNLIKELY (ZSTD_isError(r))
 					return STENOS_ERROR_INVALID_INPUT;
 				// block decompression
-				r = block_decompress_generic(buffer->bytes, r, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				auto bsize = r;
+				r = block_decompress_generic(buffer->bytes, bsize, bytesoftype, dsize, dst);
+				if STENOS_UNLIKELY (has_error(r) || r == 0 || r != bsize)
 					return STENOS_ERROR_INVALID_INPUT;
 
 			} break;
-- 
2.43.0


From bebc399cf7f26d39a07d7015d2de8c538dcf15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 12/47] fix: initialize the LZ hash table

The compressed bytes depended on the previous content of the stack: the same
input and parameters could produce different frames.
---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index cd70149..1434e19 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1208,7 +1208,7 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
+				uint16_t buffer[256] = { 0 };
 
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
-- 
2.43.0


From e069de16e50db92c6642e543f37aa8a7f2cb0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 13/47] fix: do not lose the wakeup of concurrent waiters in
 tiny_pool

The first waiter to return cleared the flag shared by all waiters. Another
waiter still blocked because tasks were pushed in the meantime was then never
notified: concurrent multithreaded compressions could hang forever.
---
 stenos/internal/tiny_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..cdcb5c9 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -232,7 +232,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0;
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -284,9 +284,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From 83ba90cbc7ec8b58e2c88cbcc15dab9a4f21d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 14/47] fix: serialize the extraction of task buffers

With several threads pushing tasks at the same time, a buffer could be freed
while its next pointer was read, or extracted and reinserted before the
compare exchange (ABA), handing out the same buffer twice.
---
 stenos/internal/tiny_pool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index cdcb5c9..c6dd35e 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -53,6 +53,7 @@ namespace stenos
 		{
 
 			std::atomic<TaskBuffer*> first{ nullptr };
+			std::mutex pop_mutex; // Only one thread at a time can remove a buffer
 
 			~TaskAllocation() noexcept
 			{
@@ -63,8 +64,12 @@ namespace stenos
 
 			TaskBuffer* pop() noexcept
 			{
-				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
+				// Extract a buffer from the list.
+				// Concurrent extractions are serialized, as f might otherwise be
+				// freed while reading its next pointer, or be reinserted (with
+				// another next pointer) before the exchange.
+				std::lock_guard<std::mutex> lock(pop_mutex);
+				auto f = first.load(std::memory_order_acquire);
 				while (f && !first.compare_exchange_strong(f, f->next))
 					;
 				return f;
-- 
2.43.0


From 1b0c5a2e078599ebfcb73b25bf61fb113b0a90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 15/47] fix: report task allocation failures in tiny_pool

The task was built close to address 0 when its allocation failed.
---
 stenos/internal/tiny_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index c6dd35e..a775f25 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -91,7 +91,7 @@ namespace stenos
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
 				if (res)
 					new (res) TaskBuffer{ nullptr, s };
-				return res->data();
+				return res ? res->data() : nullptr;
 			}
 
 			void deallocate(void* p) noexcept
@@ -184,6 +184,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if STENOS_UNLIKELY (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From a36fc98c91a9011024d072937e578ad300406405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 16/47] fix: wait for pending tasks when a task cannot be
 pushed

The function returned while pool threads were still using its local
variables and the caller's buffers.
---
 stenos/internal/stenos.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index aebf337..4c46960 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -960,8 +960,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				// Wait for the tasks already pushed, they use local variables
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -998,8 +1001,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					// Wait for the tasks already pushed, they use local variables
+					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1194,8 +1200,11 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				// Wait for the tasks already pushed, they use local variables
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
-- 
2.43.0


From ef52bf31e9f863e6f7b305e95c01029632e712dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 17/47] fix: retry the allocation of the block buffer after a
 failure

The size was recorded even when the allocation failed: all later compressions
and decompressions from the same thread failed too.
---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 1434e19..6c31869 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
-- 
2.43.0


From ffbde671de9244bfa56145ba165caa5041aec2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 18/47] fix: start the thread of a tiny_pool created without
 threads

std::thread::hardware_concurrency() may return 0: tasks were then never
executed, and the destructor joined a thread that was never started.
---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index a775f25..9acbad2 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -274,7 +274,7 @@ namespace stenos
 				processing = 1;
 				threads.resize(1);
 			}
-			for (unsigned i = 0; i < nthreads; ++i)
+			for (size_t i = 0; i < threads.size(); ++i)
 				threads[i] = std::thread([this]() { this->do_work(); });
 		}
 		~tiny_pool() noexcept
-- 
2.43.0


From 7bcf43e6308e71b969c1c9e732d72471e23336a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 19/47] fix: stenos_decompress_generic() does not throw on
 allocation failure

---
 stenos/internal/stenos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 4c46960..26615fc 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1165,9 +1165,15 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 
 	size_t chunks = super_block_count;
 	while (chunks) {
-- 
2.43.0


From ac6ed000a834c14a4a5c7f3f0f643252dc042a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 20/47] fix: keep the context buffers consistent after an
 allocation failure

When only the first vector could be resized, the next call indexed the other
ones out of bounds.
---
 stenos/internal/stenos.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 26615fc..0dafa64 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -189,9 +189,10 @@ struct stenos_context_s
 		// Ensure that we have the requested number of buffers
 		try {
 			if (thread_buffers.size() < (size_t)size) {
-				thread_buffers.resize((size_t)size, nullptr);
-				tmp_buffers1.resize((size_t)size, nullptr);
+				// thread_buffers comes last as its size is the one checked
 				tmp_buffers2.resize((size_t)size, nullptr);
+				tmp_buffers1.resize((size_t)size, nullptr);
+				thread_buffers.resize((size_t)size, nullptr);
 			}
 		}
 		catch (...) {
-- 
2.43.0


From ae3d482e4fbe264713e726a5133fa69f4461c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 21/47] fix: for_each() passes the elements by reference to
 functors returning a bool

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..63a6080 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From b7293f14c491fb5ba0338491311b6f960e3d59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 22/47] fix: for_each() keeps the modifications made before an
 early stop

---
 stenos/cvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 63a6080..9cacd7e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2299,6 +2299,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// Mark as dirty before calling the functor, which might stop early or throw
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2306,7 +2308,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2363,12 +2364,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// Mark as dirty before calling the functor, which might stop early or throw
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From ccc1107ad01459ea6396db6e97f724903d34081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 23/47] fix: cvector::serialize() writes the last block when it
 is full

---
 stenos/cvector.hpp | 52 ++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 9cacd7e..312041a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2438,11 +2438,10 @@ namespace stenos
 
 		/// @brief Returns the compressed buffer for given block.
 		/// This function will compress if necessary the corresponding block and deallocate the decompression context (if any).
-		/// For all blocks except the last one, this function returns a view on compression buffer.
-		/// For the last block, returns a null buffer.
+		/// The block must be full (which might not be the case of the last one).
 		std::pair<const char*, size_t> compressed_block(size_t pos)
 		{
-			if (!d_data || pos == d_data->d_buckets.size() - 1)
+			if (!d_data)
 				return { nullptr, 0 };
 
 			auto* bucket = &d_data->d_buckets[pos];
@@ -3053,30 +3052,21 @@ namespace stenos
 					// check if last bucket is empty
 					auto* buffer = &d_data->d_buckets.back();
 					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
+					if (raw && raw->size == 0)
 						goto end;
 
-					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
-						if STENOS_UNLIKELY (dst + csize > dst_end)
+					// compress last bucket if not full
+					if (raw && raw->size != block_size) {
+						r = d_data->compress(raw->storage, raw->size * sizeof(T));
+						if STENOS_UNLIKELY (stenos_has_error(r))
+							return r;
+						if STENOS_UNLIKELY (dst + r > dst_end)
 							return STENOS_ERROR_DST_OVERFLOW;
 
-						memcpy(dst, raw->buffer, csize);
-						dst += csize;
+						memcpy(dst, d_data->compression_buffer(), r);
+						dst += r;
 						goto end;
 					}
-
-					// compress last bucket
-					r = d_data->compress(raw->storage, raw->size * sizeof(T));
-					if STENOS_UNLIKELY (stenos_has_error(r))
-						return r;
-					if STENOS_UNLIKELY (dst + r > dst_end)
-						return STENOS_ERROR_DST_OVERFLOW;
-
-					memcpy(dst, d_data->compression_buffer(), r);
-					dst += r;
-					goto end;
 				}
 
 				auto buf = compressed_block(i);
@@ -3264,25 +3254,19 @@ namespace stenos
 				// check if last bucket is empty
 				auto* buffer = &d_data->d_buckets.back();
 				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				if (raw && raw->size == 0)
 					goto end;
 
-				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
+				// compress last bucket if not full
+				if (raw && raw->size != block_size) {
+					r = d_data->compress(raw->storage, raw->size * sizeof(T));
+					if STENOS_UNLIKELY (stenos_has_error(r))
+						return r;
+					oss.write((char*)d_data->compression_buffer(), r);
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
 					goto end;
 				}
-
-				// compress last bucket
-				r = d_data->compress(raw->storage, raw->size * sizeof(T));
-				if STENOS_UNLIKELY (stenos_has_error(r))
-					return r;
-				oss.write((char*)d_data->compression_buffer(), r);
-				if STENOS_UNLIKELY (!oss)
-					return STENOS_ERROR_DST_OVERFLOW;
-				goto end;
 			}
 
 			auto buf = compressed_block(i);
-- 
2.43.0


From 9384d9c6ad3139311a9fb67ddfa73a299dd62be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 24/47] fix: release the compression context of a destroyed
 cvector

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 312041a..f68f4e4 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1455,7 +1455,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From 03eb4971a4a628bcbc3a0931c5d9f508db709808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 25/47] fix: copy assignment to an empty cvector

---
 stenos/cvector.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index f68f4e4..3da60d7 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2605,7 +2605,7 @@ namespace stenos
 			if (this != std::addressof(other)) {
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
+					if (d_data && get_allocator() != other.get_allocator()) {
 						destroy_internal(d_data);
 						d_data = nullptr;
 					}
@@ -2617,19 +2617,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From d2c73435729a04914f78f438848ef761ae29302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 26/47] fix: a new decompression context is not bound to the
 first block

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 3da60d7..1bdb329 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -702,7 +702,7 @@ namespace stenos
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
 			res->dirty = 0;
-			res->block_index = 0;
+			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
 			return res;
-- 
2.43.0


From f18e1c13ba9ef11075981edb669c7baa5c4d4df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 27/47] fix: keep the reference counts when assigning a const
 reference wrapper

---
 stenos/cvector.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 1bdb329..6efa937 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -865,6 +865,17 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE ~ConstRefWrapper() noexcept { _bucket()->unref(); }
 
+			STENOS_ALWAYS_INLINE ConstRefWrapper& operator=(const ConstRefWrapper& other) noexcept
+			{
+				// Take the new reference before releasing the current one
+				other._bucket()->get().ref();
+				_bucket()->unref();
+				c = other.c;
+				bucket = other.bucket;
+				bpos = other.bpos;
+				return *this;
+			}
+
 			STENOS_ALWAYS_INLINE auto bucket_index() const noexcept -> size_t { return bucket; }
 			STENOS_ALWAYS_INLINE auto bucket_pos() const noexcept -> size_t { return bpos; }
 			STENOS_ALWAYS_INLINE auto vector_data() const noexcept -> const void* { return c; }
-- 
2.43.0


From 38dea1c5a124a42060a7e06469b650592713b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 28/47] fix: back insertion does not reuse a referenced chunk

---
 stenos/cvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 6efa937..2bfe007 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1864,7 +1864,8 @@ namespace stenos
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					// Reuse the context of the back bucket, except if it is referenced
+					RawType* raw = d_buckets.back().ref_count.value() == 0 ? compress_bucket(d_buckets.size() - 1) : make_or_find_free_context();
 					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
-- 
2.43.0


From deab99632de09972c29c57083bafcf526ccaa8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 29/47] fix: insert() and assign() do not wait for a chunk
 referenced by the caller

---
 stenos/cvector.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 2bfe007..8293cec 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2218,12 +2218,8 @@ namespace stenos
 
 						std::move_backward(iterator(this, 0) + off, iterator(this, 0) + static_cast<difference_type>(size() - len), iterator(this, size()));
 
-						// std::copy(first, last, iterator(this, 0) + off);
-						// use for_each instead of std::copy
-						for_each(static_cast<size_t>(off), static_cast<size_t>(off) + len, [&first](T& v) {
-							v = *first;
-							++first;
-						});
+						// Do not use for_each() which would wait for ever for a chunk referenced by the caller
+						std::copy(first, last, iterator(this, 0) + off);
 					}
 					catch (...) {
 						for (; oldsize < size();)
@@ -2848,10 +2844,8 @@ namespace stenos
 			if (size_t len = stenos::distance(first, last)) {
 				// For random access iterators
 				resize(len);
-				for_each(0, size(), [&first](auto& val) {
-					val = *first;
-					++first;
-				});
+				// Do not use for_each() which would wait for ever for a chunk referenced by the caller
+				std::copy(first, last, begin());
 			}
 			else {
 				// For forward iterators
-- 
2.43.0


From 3196ce80c544de203b889120b220bab2573bccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 30/47] fix: cvector members which do not compile when used

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 8293cec..77a2202 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -981,7 +981,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE auto operator=(const ValueWrapper<T>& other) -> RefWrapper&
 			{
-				set(other.value);
+				set(other.get());
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator=(ValueWrapper<T>&& other) -> RefWrapper&
@@ -1558,7 +1558,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto back_size() const noexcept -> size_t
 			{
 				if (d_buckets.size()) {
-					if (d_buckets.back().buffer)
+					if (d_buckets.back().data.find_compressed())
 						return static_cast<size_t>(elems_per_block);
 					return static_cast<size_t>(d_buckets.back().load_decompressed()->size);
 				}
@@ -1569,7 +1569,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto front_size() const noexcept -> size_t
 			{
 				if (d_buckets.size()) {
-					if (d_buckets.front().buffer)
+					if (d_buckets.front().data.find_compressed())
 						return static_cast<size_t>(elems_per_block);
 					return static_cast<size_t>(d_buckets.size() > 1 ? block_size : d_buckets.front().load_decompressed()->size);
 				}
@@ -1588,7 +1588,7 @@ namespace stenos
 				decompressed_size *= block_size * sizeof(T);
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
+					if (d_buckets[i].data.find_compressed())
 						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
@@ -2794,7 +2794,7 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(cbegin() + static_cast<difference_type>(pos), cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
@@ -3432,7 +3432,7 @@ namespace stenos
 		}
 
 		istreambuf_iterator(istreambuf_iterator&& other) noexcept
-		  : d_in(&other.d_in)
+		  : d_in(other.d_in)
 		  , d_has_value(other.d_has_value)
 		{
 			if (d_has_value)
-- 
2.43.0


From 4c29296a57c2771aec5dc0bc187cefca1d0f0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 31/47] fix: a failed allocation does not lose the elements of
 a cvector

---
 stenos/cvector.hpp | 63 +++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 77a2202..3b12078 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1623,14 +1623,24 @@ namespace stenos
 
 					// If the context is dirty, compress it
 					if (raw->dirty) {
-						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
+						STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
 						// Compress
 						size_t r = compress(raw->storage);
 						if (r != stenos_private_block_csize(raw->buffer)) {
 							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
+							char* buff = nullptr;
+							try {
+								buff = this->allocate_buffer_for_compression((unsigned)r, raw);
+							}
+							catch (...) {
+								// Keep this context and the remaining ones
+								new_contexts.push_back(raw);
+								while (it != d_contexts.end())
+									new_contexts.push_back(*it++);
+								d_contexts.assign(std::move(new_contexts));
+								throw;
+							}
+
 
 							if (raw->buffer)
 								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
@@ -1687,8 +1697,8 @@ namespace stenos
 			}
 
 			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
+			/// In case of exception, unlock the bucket and rethrow: its values remain in the (dirty) decompression context.
+			auto allocate_buffer_for_compression(unsigned size, RawType* context) -> char*
 			{
 				char* buff = nullptr;
 				try {
@@ -1697,27 +1707,6 @@ namespace stenos
 				catch (...) {
 					// unlock bucket
 					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
 					throw;
 				}
 				return buff;
@@ -1776,7 +1765,6 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
@@ -1787,7 +1775,7 @@ namespace stenos
 
 					if (r != stenos_private_block_csize(found_raw->buffer)) {
 						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
+						char* buff = allocate_buffer_for_compression((unsigned)r, found_raw);
 						if (found_raw->buffer)
 							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
 						found_raw->buffer = buff;
@@ -1797,9 +1785,14 @@ namespace stenos
 
 					// Use this opportunity to free another context if possible
 					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
-						if (raw)
-							erase_context(raw);
+						try {
+							RawType* raw = find_free_context(exclude, &found);
+							if (raw)
+								erase_context(raw);
+						}
+						catch (...) {
+							// Not mandatory: keep the other contexts
+						}
 					}
 				}
 
@@ -1840,7 +1833,7 @@ namespace stenos
 				// Compress
 				size_t r = compress(decompressed->storage);
 				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
+					char* buff = allocate_buffer_for_compression((unsigned)r, decompressed);
 					if (decompressed->buffer)
 						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
 					decompressed->buffer = buff;
@@ -1858,17 +1851,17 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					// Reuse the context of the back bucket, except if it is referenced
 					RawType* raw = d_buckets.back().ref_count.value() == 0 ? compress_bucket(d_buckets.size() - 1) : make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 			}
-- 
2.43.0


From 7bbd02500052edfc0a3c6d69d3c150fec281a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 32/47] fix: assigning an element of a cvector to another one
 does not modify its source

---
 stenos/cvector.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 3b12078..e961e48 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -961,11 +961,9 @@ namespace stenos
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
 					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
-					if (!std::is_trivially_move_assignable<T>::value)
-						raw_other->mark_dirty();
 					raw_this->mark_dirty();
-					raw_this->at(this->bpos) = std::move(raw_other->at(other.bpos));
+					// Like the conversion operator, only move from move-only types ('v[i] = v[j]' does not modify v[j])
+					raw_this->at(this->bpos) = conv::move(other);
 				}
 				return *this;
 			}
@@ -1641,7 +1639,6 @@ namespace stenos
 								throw;
 							}
 
-
 							if (raw->buffer)
 								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
 							raw->buffer = buff;
-- 
2.43.0


From 695027da05d9da8f4e42abd38c857fc08db8b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 33/47] fix: restore and do not overrun the last of 16 elements
 of 12 bytes (SSE2)

---
 stenos/internal/shuffle-sse2.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..ab70461 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -363,12 +363,6 @@ static void unshuffle8_sse2(uint8_t* const dest, const uint8_t* const src, const
 	}
 }
 
-template<class... Args>
-STENOS_ALWAYS_INLINE __m128i setr_epi8(Args... values) noexcept
-{
-	return _mm_setr_epi8(std::forward<char>(values)...);
-}
-
 /* Routine optimized for unshuffling a buffer for a type size of 12 bytes. */
 /* Based on the 16-byte implementation */
 static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, const int32_t vectorizable_elements, const int32_t total_elements)
@@ -378,8 +372,6 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
-
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
 		const uint8_t* const src_for_ith_element = src + i;
@@ -431,7 +423,10 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (12 * 12)), xmm1[3]);
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (13 * 12)), xmm1[11]);
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (14 * 12)), xmm1[7]);
-		_mm_maskmoveu_si128(xmm1[15], mask, (char*)(dest + (i * bytesoftype) + (15 * 12)));
+		/* The last element must not be written beyond its 12 bytes */
+		_mm_storel_epi64((__m128i*)(dest + (i * bytesoftype) + (15 * 12)), xmm1[15]);
+		const int32_t last = _mm_cvtsi128_si32(_mm_srli_si128(xmm1[15], 8));
+		memcpy(dest + (i * bytesoftype) + (15 * 12) + 8, &last, 4);
 	}
 }
 
-- 
2.43.0


From 0fbaadfe2eeadf6073c6179d824a29e75672b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 34/47] fix: assign() from single pass or move-only iterators,
 assignment between named references

---
 stenos/cvector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e961e48..c98a161 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -957,6 +957,7 @@ namespace stenos
 				}
 				return *this;
 			}
+			STENOS_ALWAYS_INLINE auto operator=(const RefWrapper& other) -> RefWrapper& { return *this = static_cast<const base_type&>(other); }
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
@@ -2835,7 +2836,8 @@ namespace stenos
 				// For random access iterators
 				resize(len);
 				// Do not use for_each() which would wait for ever for a chunk referenced by the caller
-				std::copy(first, last, begin());
+				for (auto it = begin(); first != last; ++first, ++it)
+					*it = *first;
 			}
 			else {
 				// For forward iterators
-- 
2.43.0


From b02b76874733ec90b4bcc6e35259f605861ef7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 35/47] fix: do not terminate when swapping or moving elements
 fails to allocate

---
 stenos/cvector.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c98a161..ac3c10a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -770,7 +770,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper(RefWrapper<C>&& v) noexcept;
+			ValueWrapper(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE ValueWrapper& operator=(const T& v)
 			{
@@ -795,7 +795,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper& operator=(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper& operator=(RefWrapper<C>&& v) noexcept;
+			ValueWrapper& operator=(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE const T& get() const { return value; }
 			STENOS_ALWAYS_INLINE operator T&() noexcept { return value; }
@@ -923,7 +923,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE RefWrapper(const RefWrapper& other) noexcept = default;
 
-			STENOS_ALWAYS_INLINE auto move() noexcept -> T&&
+			STENOS_ALWAYS_INLINE auto move() -> T&&
 			{
 				auto raw = this->decompress_if_needed();
 				if (!std::is_trivially_move_assignable<T>::value)
@@ -1008,7 +1008,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v)
 		  : value(std::move(v.move()))
 		{
 		}
@@ -1022,7 +1022,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v)
 		{
 			value = std::move(v.move());
 			return *this;
@@ -1031,13 +1031,13 @@ namespace stenos
 		// Overload swap function for RefWrapper
 
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b)
 		{
 			using wrapper = RefWrapper<Compressed>;
 			const_cast<wrapper&>(a).swap(const_cast<wrapper&>(b));
 		}
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b)
 		{
 			(a).swap((b));
 		}
@@ -1176,7 +1176,7 @@ namespace stenos
 					new (as_ref()) const_ref_type(c()->cat(static_cast<size_t>(abspos)));
 				return *as_ref();
 			}
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const T* { return &((operator*()).get()); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const T* { return &((operator*()).get()); }
 			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedConstIter&
 			{
 				this->abspos += diff;
@@ -1245,7 +1245,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
-- 
2.43.0


From 5403a5195b8105b8af99b560caee09a3131fb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 36/47] fix: do not leak when constructors or resize() fail

---
 stenos/cvector.hpp | 50 ++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index ac3c10a..22feef7 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2061,15 +2061,15 @@ namespace stenos
 						while (size() < new_size - block_size) {
 							size_t r = 0;
 							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
-							// compress
-							r = compress(raw.storage);
-
+							raw.size = 0;
 							char* buff = nullptr;
 							try {
+								// construct, might throw, only the constructed elements are destroyed
+								for (; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+								// compress
+								r = compress(raw.storage);
+
 								// might throw, see below
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
@@ -2115,15 +2115,15 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
-							// compress
-							r = compress(raw.storage);
-
+							raw.size = 0;
 							char* buff = nullptr;
 							try {
+								// construct, might throw, only the constructed elements are destroyed
+								for (; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+								// compress
+								r = compress(raw.storage);
+
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
 								memcpy(buff, compression_buffer(), r);
@@ -2502,8 +2502,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2511,8 +2510,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2531,8 +2529,14 @@ namespace stenos
 		{
 			if (other.size()) {
 				d_data = make_internal(alloc);
-				// calling push_back is faster than resize + copy
-				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				try {
+					// calling push_back is faster than resize + copy
+					other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				}
+				catch (...) {
+					destroy_internal(d_data);
+					throw;
+				}
 			}
 		}
 		/// @brief Move constructor. Constructs the container with the contents of other using move semantics. Allocator is obtained by move-construction from the allocator belonging to other.
@@ -2548,8 +2552,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2566,8 +2569,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 873a0c3eab0caba7d00cb2d59e158ce4e9e7ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 37/47] fix: reverse iterators do not return a reference into a
 destroyed iterator

---
 stenos/cvector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 22feef7..54d7266 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1097,7 +1097,7 @@ namespace stenos
 		public:
 			using T = typename Compressed::value_type;
 			using value_type = ValueWrapper<T>;
-			using reference = ref_type;
+			using reference = const_ref_type; // not a C++ reference: std::reverse_iterator returns a wrapper that outlives its temporary iterator
 			using const_reference = const_ref_type&;
 			using pointer = const T*;
 			using const_pointer = const T*;
@@ -1215,7 +1215,7 @@ namespace stenos
 			using ref_type = typename Compressed::ref_type;
 			using const_ref_type = typename Compressed::const_ref_type;
 			using value_type = typename base_type::value_type;
-			using reference = ref_type&;
+			using reference = ref_type;
 			using const_reference = const_ref_type&;
 			using pointer = value_type*;
 			using const_pointer = const value_type*;
@@ -1244,7 +1244,7 @@ namespace stenos
 				base_type::operator=(static_cast<const base_type>(other));
 				return *this;
 			}
-			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
+			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> ref_type& { return reinterpret_cast<ref_type&>(const_cast<this_type*>(this)->base_type::operator*()); }
 			STENOS_ALWAYS_INLINE auto operator->() const -> const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
-- 
2.43.0


From c38dbb2935c97c3fd8c5c01f1d7a18a422a45bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 38/47] fix: no out of bounds access when swapping or assigning
 elements of two vectors

---
 stenos/cvector.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 54d7266..55b03d9 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -827,6 +827,11 @@ namespace stenos
 					decompressed = _c()->decompress_bucket(bucket, exclude);
 				return decompressed;
 			}
+			STENOS_ALWAYS_INLINE auto decompress_if_needed(const ConstRefWrapper& other) const
+			{
+				// Exclude the bucket of other, if it belongs to the same vector
+				return decompress_if_needed(other.c == c ? other.bucket : static_cast<size_t>(-1));
+			}
 
 			STENOS_ALWAYS_INLINE bool move_inside_block(std::ptrdiff_t val)
 			{
@@ -950,8 +955,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(const base_type& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(other);
+					auto raw_other = other.decompress_if_needed(*this);
 					raw_this->mark_dirty();
 					raw_this->at(this->bpos) = raw_other->at(other.bpos);
 				}
@@ -961,7 +966,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
+					auto raw_this = this->decompress_if_needed(other);
 					raw_this->mark_dirty();
 					// Like the conversion operator, only move from move-only types ('v[i] = v[j]' does not modify v[j])
 					raw_this->at(this->bpos) = conv::move(other);
@@ -991,8 +996,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void swap(RefWrapper& other)
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(other);
+					auto raw_other = other.decompress_if_needed(*this);
 					raw_this->mark_dirty();
 					raw_other->mark_dirty();
 					std::swap(raw_this->at(this->bpos), raw_other->at(other.bpos));
-- 
2.43.0


From 1af8071a8c71cdc0a7177bcb45bb9c07d81d088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 39/47] fix: do not terminate when copying the value of
 assign() or insert() fails

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 55b03d9..5fe894e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -231,11 +231,11 @@ namespace stenos
 		using pointer = typename alloc_traits::const_pointer;
 		using reference = const value_type&;
 
-		explicit cvalue_iterator(size_type _pos) noexcept
+		explicit cvalue_iterator(size_type _pos)
 		  : pos(_pos)
 		{
 		}
-		cvalue_iterator(size_type _pos, const T& _value) noexcept
+		cvalue_iterator(size_type _pos, const T& _value)
 		  : pos(_pos)
 		  , value(_value)
 		{
@@ -248,7 +248,7 @@ namespace stenos
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -260,7 +260,7 @@ namespace stenos
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -285,13 +285,13 @@ namespace stenos
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From 975b84c1dd8e25f25559c75c979a87cb2f702927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 40/47] fix: byte delta decoding of less than one register
 reads before the destination

---
 stenos/internal/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/delta.cpp b/stenos/internal/delta.cpp
index 0ce4ded..00780f6 100644
--- a/stenos/internal/delta.cpp
+++ b/stenos/internal/delta.cpp
@@ -299,7 +299,7 @@ namespace stenos
 				dst += 16;
 			}
 			while (src < end) {
-				*dst = dst[-1] + *src;
+				*dst = (dst == (char*)_dst ? 0 : dst[-1]) + *src;
 				++src;
 				++dst;
 			}
@@ -406,7 +406,7 @@ namespace stenos
 				dst += 32;
 			}
 			while (src < end) {
-				*dst = dst[-1] + *src;
+				*dst = (dst == (char*)_dst ? 0 : dst[-1]) + *src;
 				++src;
 				++dst;
 			}
-- 
2.43.0


From a22462dcc1f9d6b989673f9bc397d2c93cdc0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 41/47] fix: no division by zero for a time limited compression
 with a huge thread count

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 0dafa64..850fc7d 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -125,7 +125,7 @@ struct stenos_context_s
 
 		if (t.nanoseconds) {
 			// try to have at least thread * 32 super block
-			size_t required_superblock_count = threads * 32;
+			size_t required_superblock_count = (size_t)threads * 32;
 			size_t required_superblock_size = bytes / required_superblock_count;
 
 			size_t block_count = required_superblock_size / block_size;
-- 
2.43.0


From 3e0b6328e4e63320df43379e1799bfdfe0862180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 42/47] fix: retry the creation of a thread's zstd context
 after an allocation failure

---
 stenos/internal/zstd_wrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index 54f8d6a..8a221a5 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -73,6 +73,9 @@ namespace stenos
 			}
 		};
 		thread_local ZSTDContext ctx;
+		if (!ctx.ctx)
+			// Creation failed for this call or a previous one: (re)try
+			ctx.ctx = ZSTD_createCCtx();
 		if (!ctx.ctx)
 			return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From 2e0b145f810373b6cd3479fadbb39c35cfda84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 43/47] fix: copying an element reference never waits for a
 pending writer of its chunk

---
 stenos/cvector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5fe894e..bd1d999 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -381,6 +381,12 @@ namespace stenos
 				while (!try_lock_shared())
 					std::this_thread::yield();
 			}
+			// Acquire an additional reader permission while already holding one: never waits, even for a pending writer
+			STENOS_ALWAYS_INLINE void relock_shared() noexcept
+			{
+				STENOS_ASSERT_DEBUG(d_lock.load() >= read, "");
+				d_lock.fetch_add(read, std::memory_order_acquire);
+			}
 			STENOS_ALWAYS_INLINE void unlock_shared() noexcept
 			{
 				STENOS_ASSERT_DEBUG(d_lock.load() > 0, "");
@@ -692,6 +698,7 @@ namespace stenos
 
 			STENOS_ALWAYS_INLINE PackBuffer& get() const noexcept { return *const_cast<PackBuffer*>(this); }
 			STENOS_ALWAYS_INLINE void ref() noexcept { ref_count.lock_shared(); }
+			STENOS_ALWAYS_INLINE void add_ref() noexcept { ref_count.relock_shared(); }
 			STENOS_ALWAYS_INLINE void unref() noexcept { ref_count.unlock_shared(); }
 		};
 
@@ -866,14 +873,15 @@ namespace stenos
 			  , bucket(other.bucket)
 			  , bpos(other.bpos)
 			{
-				_bucket()->ref();
+				// The bucket is already referenced by other: waiting for a pending writer would be a deadlock
+				_bucket()->add_ref();
 			}
 			STENOS_ALWAYS_INLINE ~ConstRefWrapper() noexcept { _bucket()->unref(); }
 
 			STENOS_ALWAYS_INLINE ConstRefWrapper& operator=(const ConstRefWrapper& other) noexcept
 			{
 				// Take the new reference before releasing the current one
-				other._bucket()->get().ref();
+				other._bucket()->get().add_ref();
 				_bucket()->unref();
 				c = other.c;
 				bucket = other.bucket;
-- 
2.43.0


From 2c64ff4e176c2c08f3b5cf7d254eefd13e08b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 44/47] fix: incrementing a new istreambuf_iterator skips the
 first record

---
 stenos/cvector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index bd1d999..b9d55f7 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3489,6 +3489,9 @@ namespace stenos
 		{
 			// skip to next input element
 			if (d_in) {
+				// the skipped element might not have been read yet
+				if (!d_has_value && !read())
+					return;
 				if (d_has_value) {
 					d_has_value = false;
 					value()->~T();
-- 
2.43.0


From 54b2940d6df55e753738c506aee49fe39ec243e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 45/47] fix: tiny_pool threads read the stop flag without the
 mutex

---
 stenos/internal/tiny_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 9acbad2..28685f5 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -244,7 +244,8 @@ namespace stenos
 
 		void do_work() noexcept
 		{
-			while (!finish) {
+			for (;;) {
+				// finish is only read with the mutex locked
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-- 
2.43.0


From f9ba5a8ef90d725d24de8ea522f988740999f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 46/47] fix: cvector publishes a decompressed chunk before
 filling it, and through a volatile

The pointer of a bucket is read by threads that do not hold the lock of the
decompression. It is now an atomic written with release order, once the buffer
is complete.
---
 stenos/cvector.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index b9d55f7..73ed02a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -633,8 +633,9 @@ namespace stenos
 		template<class T, unsigned block_size>
 		class TagPointer
 		{
-			volatile uintptr_t d_ptr = 0; // Not certain volatile is mandatory
-			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr; }
+			// A reader of the pointer must see the content written before its publication
+			std::atomic<uintptr_t> d_ptr{ 0 };
+			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr.load(std::memory_order_acquire); }
 
 		public:
 			constexpr TagPointer() = default;
@@ -642,15 +643,29 @@ namespace stenos
 			  : d_ptr((uintptr_t)p | type)
 			{
 			}
-			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept { return (d_ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr); }
-			STENOS_ALWAYS_INLINE char* compressed() const noexcept { return (d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : nullptr; }
+			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept
+			{
+				uintptr_t ptr = load();
+				return (ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(ptr);
+			}
+			STENOS_ALWAYS_INLINE char* compressed() const noexcept
+			{
+				uintptr_t ptr = load();
+				return (ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : nullptr;
+			}
 			STENOS_ALWAYS_INLINE char* find_compressed() const noexcept
 			{
-				return d_ptr ? ((d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr)->buffer) : nullptr;
+				uintptr_t ptr = load();
+				return ptr ? ((ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(ptr)->buffer) : nullptr;
 			}
-			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { d_ptr = (uintptr_t)p | type; }
-			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept { std::swap(d_ptr, other.d_ptr); }
-			STENOS_ALWAYS_INLINE operator bool() const noexcept { return d_ptr != 0; }
+			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { d_ptr.store((uintptr_t)p | type, std::memory_order_release); }
+			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept
+			{
+				uintptr_t ptr = load();
+				d_ptr.store(other.load(), std::memory_order_release);
+				other.d_ptr.store(ptr, std::memory_order_release);
+			}
+			STENOS_ALWAYS_INLINE operator bool() const noexcept { return load() != 0; }
 		};
 
 		/// @brief Compressed buffer class
@@ -1893,10 +1908,10 @@ namespace stenos
 
 					this->decompress(pack, raw->storage);
 					char* buffer = pack->data.find_compressed();
-					pack->data.set(raw, Raw);
 					raw->buffer = buffer;
 					raw->dirty = 0;
 					raw->size = block_size;
+					pack->data.set(raw, Raw);
 					decompressed = raw;
 				}
 				return decompressed;
-- 
2.43.0


From eb0d697d0d3e394bf3b9d6f70d4740cb7b871ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 47/47] fix: tasks copying compressed superblocks write the
 same error code concurrently

---
 stenos/internal/stenos.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 850fc7d..ccdc47c 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -994,10 +994,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 			}
 
 			// copy to destination in parallel
+			std::atomic<bool> overflow{ false }; // several tasks might set it
 			for (int i = 0; i < thread_count; ++i) {
 				if (!stenos::pool->push([&, i]() {
 					    if ((uint8_t*)opts->thread_buffers[i]->dst + opts->thread_buffers[i]->dst_size > dst_end) {
-						    res_code = STENOS_ERROR_DST_OVERFLOW;
+						    overflow.store(true, std::memory_order_relaxed);
 					    }
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
@@ -1010,8 +1011,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 			}
 			stenos::pool->wait();
 
-			if STENOS_UNLIKELY (res_code)
+			if STENOS_UNLIKELY (overflow.load(std::memory_order_relaxed)) {
+				res_code = STENOS_ERROR_DST_OVERFLOW;
 				goto end;
+			}
 		}
 		chunks -= (size_t)thread_count;
 	}
-- 
2.43.0

