From e94389f99d0b90115e7ab42b97642b943683b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 01/27] fix: compute the append-dimension divisor of
 chunk_lattice_index in 64 bits

The product of the inner array sizes wrapped at 2^32, giving wrong chunk
indices or a failed check.
---
 src/streaming/zarr.dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..97b64e4 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -49,7 +49,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        size_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
-- 
2.43.0


From 44f04c346bb6c141537439c2afb48491eed809dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 02/27] fix: round up chunk and shard counts without 32-bit
 overflow

array_size + chunk_size - 1 wrapped for large 32-bit sizes.
---
 src/streaming/zarr.common.cpp    | 10 ++++++----
 src/streaming/zarr.dimension.cpp |  3 +--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index f70fde0..14017cb 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -76,8 +76,10 @@ zarr::chunks_along_dimension(const ZarrDimension& dimension)
 {
     EXPECT(dimension.chunk_size_px > 0, "Invalid chunk size.");
 
-    return (dimension.array_size_px + dimension.chunk_size_px - 1) /
-           dimension.chunk_size_px;
+    // 64-bit arithmetic: the sum may exceed 32 bits
+    const size_t array_size = dimension.array_size_px;
+    const size_t chunk_size = dimension.chunk_size_px;
+    return (array_size + chunk_size - 1) / chunk_size;
 }
 
 uint32_t
@@ -87,7 +89,7 @@ zarr::shards_along_dimension(const ZarrDimension& dimension)
         return 0;
     }
 
-    const auto shard_size = dimension.shard_size_chunks;
-    const auto n_chunks = chunks_along_dimension(dimension);
+    const size_t shard_size = dimension.shard_size_chunks;
+    const size_t n_chunks = chunks_along_dimension(dimension);
     return (n_chunks + shard_size - 1) / shard_size;
 }
diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 97b64e4..5049bdc 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -78,8 +78,7 @@ ArrayDimensions::tile_group_offset(uint64_t frame_id) const
     std::vector<size_t> strides(dims_.size(), 1);
     for (auto i = dims_.size() - 1; i > 0; --i) {
         const auto& dim = dims_[i];
-        const auto a = dim.array_size_px, c = dim.chunk_size_px;
-        strides[i - 1] = strides[i] * ((a + c - 1) / c);
+        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dim);
     }
 
     size_t offset = 0;
-- 
2.43.0


From c02deb189cdb40b5c11a59a28f77c386856501f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 03/27] fix: compute the frames per shard in 64 bits

---
 src/streaming/zarrv3.array.writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..5dd21c6 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -243,8 +243,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
 {
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
-    size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+    size_t frames_before_flush = append_dim.chunk_size_px;
+    frames_before_flush *= append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From 8c462d640739215b84b4c6514dc472a8ab7a7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 04/27] fix: do not truncate the offset of a vectorized write
 to 32 bits

---
 src/streaming/vectorized.file.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..52392cb 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -191,7 +191,7 @@ zarr::VectorizedFileWriter::write_vectors(
     ssize_t bytes_written = pwritev(fd_,
                                     iovecs.data(),
                                     static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+                                    static_cast<off_t>(offset));
 
     if (bytes_written != total_bytes) {
         auto error = get_last_error_as_string();
-- 
2.43.0


From 1d323e71daea1ce648d7442662e921ef5d4a671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 05/27] fix: report failed writes and flushes of a file sink

---
 src/streaming/file.sink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..fce402f 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -19,12 +19,12 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+    return file_.good();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return file_.good();
 }
-- 
2.43.0


From 65cc05625a8661ac63b86c5391c5bb1e80fab738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 06/27] fix: report a file that cannot be opened when its sink
 is created

---
 src/streaming/file.sink.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index fce402f..8b9aead 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,3 +1,4 @@
+#include "macros.hh"
 #include "file.sink.hh"
 
 #include <filesystem>
@@ -7,6 +8,7 @@ namespace fs = std::filesystem;
 zarr::FileSink::FileSink(std::string_view filename)
 : file_(filename.data(), std::ios::binary | std::ios::trunc)
 {
+    EXPECT(file_.is_open(), "Failed to open file '", filename, "'");
 }
 
 bool
-- 
2.43.0


From c1a59822d0d00b3f0db8c0371b7738f88c49ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 07/27] fix: record a failed file or directory before releasing
 the latch

A worker counted the latch down first, so that the waiting caller could miss
the failure and return while the worker still wrote to its stack variable.
---
 src/streaming/sink.creator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..c74d2f9 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -268,8 +268,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
                      if (dirname.empty()) {
                          err = "Directory name must not be empty.";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -279,8 +279,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      } else if (fs::exists(dirname)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -289,8 +289,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-                             latch.count_down();
                              all_successful.fetch_and(0);
+                             latch.count_down();
                              return false;
                          }
                      }
@@ -344,8 +344,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +395,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From 7145b4186f1f499bbfb72db14658b2a946d648a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 08/27] fix: report chunks that could not be compressed

A non-positive return value of blosc_compress_ctx was taken for a size, and
the failure of a compression job did not reach the caller.
---
 src/streaming/array.writer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..beca937 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -4,6 +4,7 @@
 #include "zarr.stream.hh"
 #include "sink.creator.hh"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <latch>
@@ -349,10 +350,11 @@ zarr::ArrayWriter::compress_buffers_()
     const auto bytes_per_px = bytes_of_type(config_.dtype);
 
     std::scoped_lock lock(buffers_mutex_);
+    std::atomic<bool> all_successful{ true };
     std::latch latch(chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -373,6 +375,8 @@ zarr::ArrayWriter::compress_buffers_()
                                               0 /* blocksize - 0:automatic */,
                                               1);
 
+                         EXPECT(nb > 0, "blosc_compress_ctx returned ", nb);
+
                          tmp.resize(nb);
                          buf->swap(tmp);
 
@@ -380,6 +384,7 @@ zarr::ArrayWriter::compress_buffers_()
                      } catch (const std::exception& exc) {
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
+                         all_successful = false;
                      }
                      latch.count_down();
 
@@ -390,6 +395,8 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+
+    EXPECT(all_successful, "Failed to compress chunks");
 }
 
 void
-- 
2.43.0


From 9ba18111d8f3e91e9ecfacb10c3551afb2d4cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 09/27] fix: report chunks and shards that could not be written
 to the caller

A failed job was only seen through the error handler, which may run after
the append that caused it, and V3 jobs left their error message empty.
---
 src/streaming/zarrv2.array.writer.cpp |  8 ++++++--
 src/streaming/zarrv3.array.writer.cpp | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..8b4bdf2 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -5,6 +5,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -83,6 +84,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
+    std::atomic<bool> all_successful{ true };
     std::latch latch(chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
@@ -92,7 +94,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -103,6 +106,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                          } catch (const std::exception& exc) {
                              err = "Failed to write chunk: " +
                                    std::string(exc.what());
+                             all_successful = false;
                          }
 
                          latch.count_down();
@@ -115,7 +119,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    return true;
+    return all_successful;
 }
 
 bool
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 5dd21c6..400a4a4 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -6,6 +6,7 @@
 #include <nlohmann/json.hpp>
 
 #include <algorithm> // std::fill
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -91,6 +92,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
+    std::atomic<bool> all_successful{ true };
     std::latch latch(n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
@@ -103,6 +105,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        file_offset,
                                        write_table,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
             bool success = false;
 
@@ -131,10 +134,17 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                     chunk_table.size() * sizeof(uint64_t) };
                     success = sink->write(*file_offset, data);
                 }
+                if (!success) {
+                    err = "Failed to write shard";
+                }
             } catch (const std::exception& exc) {
+                success = false;
                 err = "Failed to write chunk: " + std::string(exc.what());
             }
 
+            if (!success) {
+                all_successful = false;
+            }
             latch.count_down();
             return success;
         }),
@@ -144,6 +154,10 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
+    if (!all_successful) {
+        return false;
+    }
+
     // reset shard tables and file offsets
     if (write_table) {
         for (auto& table : shard_tables_) {
-- 
2.43.0


From 8541a3689c0c5e4a81fee7504dfb0bdd0807bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 10/27] fix: give each append layer of chunks its own slots in
 the shard index

With more than one chunk per shard along the append dimension, every layer
overwrote the index entries of the first one.
---
 src/streaming/zarrv3.array.writer.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 400a4a4..ce9dd58 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -90,6 +90,18 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // a shard may hold several layers of chunks along the append dimension, and
+    // the buffered chunks make up one of them
+    const auto& dims = config_.dimensions;
+    size_t frames_per_layer = dims->final_dim().chunk_size_px;
+    for (auto i = 1; i < dims->ndims() - 2; ++i) {
+        frames_per_layer *= dims->at(i).array_size_px;
+    }
+    CHECK(frames_written_ > 0);
+    const size_t layer = (frames_written_ - 1) / frames_per_layer %
+                         dims->final_dim().shard_size_chunks;
+    const auto layer_offset = layer * dims->number_of_chunks_in_memory();
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::atomic<bool> all_successful{ true };
@@ -104,6 +116,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        &all_successful,
                                        this](std::string& err) {
@@ -120,7 +133,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(layer_offset +
+                                                               chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
-- 
2.43.0


From 7af4fbcd7cd8c8780e373ed7004c23c484d3b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 11/27] fix: complete and close the shards of a stream that
 ends within them

A stream ending on a chunk boundary in the middle of a shard never wrote the
shard index or the array metadata, and shards left open at the end were
never finalized, which lost them on S3.
---
 src/streaming/array.writer.cpp        | 10 ++++++++--
 src/streaming/zarrv3.array.writer.cpp |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index beca937..923acd6 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -402,17 +402,23 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    // sinks still open when finalizing need to be completed even if there is
+    // nothing left in the buffers
+    if (bytes_to_flush_ == 0 && !(is_finalizing_ && !data_sinks_.empty())) {
         return;
     }
 
     // compress buffers and write out
-    compress_buffers_();
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+    }
     CHECK(flush_impl_());
 
     const auto should_rollover = should_rollover_();
     if (should_rollover) {
         rollover_();
+    } else if (is_finalizing_) {
+        close_sinks_();
     }
 
     if (should_rollover || is_finalizing_) {
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index ce9dd58..8ae6d0d 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -85,7 +85,9 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // get shard indices for each chunk
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    // when finalizing right after a flush there are no chunks left to write
+    const auto n_chunks = bytes_to_flush_ > 0 ? chunk_buffers_.size() : 0;
+    for (auto i = 0; i < n_chunks; ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
@@ -120,7 +122,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &latch,
                                        &all_successful,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
-- 
2.43.0


From 3cc07cc19921eb0f2f556433a3ecf52dfd57e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 12/27] fix: store frames that were appended in pieces

A frame completed by a later call was written from the caller's buffer
instead of the frame buffer, reading beyond it, its bytes were counted twice,
and it never reached the lower resolution levels.
---
 src/streaming/zarr.stream.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..4763b61 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -437,27 +437,29 @@ ZarrStream::append(const void* data_, size_t nbytes)
               std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
 
             memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data + bytes_written,
+                   data,
                    bytes_to_copy);
             frame_buffer_offset_ += bytes_to_copy;
             bytes_written += bytes_to_copy;
+            data += bytes_to_copy;
 
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
+                frame_buffer_offset_ = 0;
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
-                frame_buffer_offset_ = 0;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
             memcpy(frame_buffer_.data(), data, bytes_remaining);
             frame_buffer_offset_ = bytes_remaining;
             bytes_written += bytes_remaining;
+            data += bytes_remaining;
         } else { // at least one full frame
             const size_t bytes_written_this_frame =
               writers_[0]->write_frame({ data, bytes_of_frame });
-- 
2.43.0


From 2b4059bfa22404554562abefc24895320ca68eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 13/27] fix: guard the stream's error message against
 concurrent access

Workers set it while the caller reads it.
---
 src/streaming/zarr.stream.cpp | 25 +++++++++++++++++--------
 src/streaming/zarr.stream.hh  |  4 ++++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 4763b61..6b53333 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -393,10 +393,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -404,22 +404,23 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
 ZarrStream::append(const void* data_, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    const std::string error = get_error_();
+    EXPECT(error.empty(), "Cannot append data: ", error);
 
     if (0 == nbytes) {
         return 0;
@@ -538,9 +539,17 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
+    std::scoped_lock lock(error_mutex_);
     error_ = msg;
 }
 
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
+}
+
 bool
 ZarrStream_s::create_store_()
 {
@@ -969,7 +978,7 @@ finalize_stream(struct ZarrStream_s* stream)
     }
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..823465b 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -40,6 +40,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // error_ is set from worker threads
 
     ZarrVersion version_;
     std::string store_path_;
@@ -77,6 +78,9 @@ struct ZarrStream_s
      */
     void set_error_(const std::string& msg);
 
+    /** @brief Get the error message, empty if there is none. */
+    std::string get_error_() const;
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
-- 
2.43.0


From adf1acddadb19a6e2f7dc28d43ae7c8cef722dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 14/27] fix: average pixels, not bytes, in the lower resolution
 levels

scale_image read every pixel type as bytes, and sums of 64-bit pixels wrapped
or lost precision.
---
 src/streaming/zarr.stream.cpp | 85 ++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 6b53333..6185843 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -285,6 +285,39 @@ dimension_type_to_string(ZarrDimensionType type)
     }
 }
 
+/// Mean of some pixels, truncated to the pixel type.
+template<typename T, size_t N>
+T
+mean(const T (&pixels)[N])
+{
+    if constexpr (std::is_floating_point_v<T>) {
+        double sum = 0;
+        for (const auto& px : pixels) {
+            sum += px;
+        }
+        return static_cast<T>(sum / N);
+    } else {
+        // add quotients and remainders separately: the sum may overflow T
+        constexpr T n = N;
+        T quot = 0, rem = 0;
+        for (const auto& px : pixels) {
+            quot += px / n;
+            rem += px % n;
+        }
+        quot += rem / n;
+        rem %= n;
+
+        if constexpr (std::is_signed_v<T>) { // truncate toward zero
+            if (quot > 0 && rem < 0) {
+                --quot;
+            } else if (quot < 0 && rem > 0) {
+                ++quot;
+            }
+        }
+        return quot;
+    }
+}
+
 template<typename T>
 [[nodiscard]] std::byte*
 scale_image(const std::byte* const src,
@@ -301,22 +334,20 @@ scale_image(const std::byte* const src,
            bytes_of_src);
 
     const int downscale = 2;
-    constexpr auto bytes_of_type = static_cast<double>(sizeof(T));
-    const double factor = 0.25;
 
-    const auto w_pad = static_cast<double>(width + (width % downscale));
-    const auto h_pad = static_cast<double>(height + (height % downscale));
+    const auto w_pad = width + (width % downscale);
+    const auto h_pad = height + (height % downscale);
 
-    const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
+    const size_t size_downscaled =
+      (w_pad / downscale) * (h_pad / downscale) * sizeof(T);
 
-    auto* dst = new T[size_downscaled];
-    EXPECT(dst,
-           "Failed to allocate ",
-           size_downscaled,
-           " bytes for destination frame");
+    auto* dst = new std::byte[size_downscaled];
 
-    memset(dst, 0, size_downscaled);
+    const auto pixel = [src](size_t idx) {
+        T px;
+        memcpy(&px, src + idx * sizeof(T), sizeof(T));
+        return px;
+    };
 
     size_t dst_idx = 0;
     for (auto row = 0; row < height; row += downscale) {
@@ -326,25 +357,25 @@ scale_image(const std::byte* const src,
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
-
-            dst[dst_idx++] =
-              static_cast<T>(factor * (here + right + down + diag));
+            const auto here = pixel(src_idx);
+            const auto right =
+              pixel(src_idx + (1 - static_cast<int>(pad_width)));
+            const auto down =
+              pixel(src_idx + width * (1 - static_cast<int>(pad_height)));
+            const auto diag =
+              pixel(src_idx + width * (1 - static_cast<int>(pad_height)) +
+                    (1 - static_cast<int>(pad_width)));
+
+            const T px = mean<T>({ here, right, down, diag });
+            memcpy(dst + sizeof(T) * dst_idx++, &px, sizeof(T));
         }
     }
 
     bytes_of_src = size_downscaled;
-    width = static_cast<size_t>(w_pad) / 2;
-    height = static_cast<size_t>(h_pad) / 2;
+    width = w_pad / downscale;
+    height = h_pad / downscale;
 
-    return reinterpret_cast<std::byte*>(dst);
+    return dst;
 }
 
 template<typename T>
@@ -366,7 +397,7 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        dst[i] = mean<T>({ dst[i], src[i] });
     }
 }
 } // namespace
-- 
2.43.0


From 6531e229bc2e4e40b1ce210385fb83d57839a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 15/27] fix: release the scaled frames of every resolution
 level

Frames of intermediate levels leaked, and all of them did when an append or
the finalization failed.
---
 src/streaming/zarr.stream.cpp | 32 ++++++++++----------------------
 src/streaming/zarr.stream.hh  |  2 +-
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 6185843..c6a7412 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -695,7 +695,7 @@ void
 ZarrStream_s::create_scaled_frames_()
 {
     for (size_t level = 1; level < writers_.size(); ++level) {
-        scaled_frames_.emplace(level, std::nullopt);
+        scaled_frames_.emplace(level, nullptr);
     }
 }
 
@@ -968,33 +968,27 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    std::unique_ptr<std::byte[]> src; // keeps data alive from level 1 on
     for (auto i = 1; i < writers_.size(); ++i) {
-        dst = scale(data, bytes_of_data, frame_width, frame_height);
+        std::unique_ptr<std::byte[]> dst(
+          scale(data, bytes_of_data, frame_width, frame_height));
 
         // bytes_of data is now downscaled
         // frame_width and frame_height are now the new dimensions
 
         if (scaled_frames_[i]) {
-            average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
-            std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
-                                  bytes_of_data };
+            const auto previous = std::move(scaled_frames_[i]);
+            average2(dst.get(), bytes_of_data, previous.get(), bytes_of_data);
+            std::span<const std::byte> frame_data{ dst.get(), bytes_of_data };
             EXPECT(writers_[i]->write_frame(frame_data),
                    "Failed to write frame to writer %zu",
                    i);
 
-            // clean up this LOD
-            delete[] *scaled_frames_[i];
-            scaled_frames_[i].reset();
-
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            src = std::move(dst);
+            data = src.get();
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = std::move(dst);
             break;
         }
     }
@@ -1032,11 +1026,5 @@ finalize_stream(struct ZarrStream_s* stream)
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    for (auto& [_, frame] : stream->scaled_frames_) {
-        if (frame) {
-            delete[] *frame;
-        }
-    }
-
     return true;
 }
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index 823465b..6225a36 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -61,7 +61,7 @@ struct ZarrStream_s
     std::unordered_map<std::string, std::unique_ptr<zarr::Sink>>
       metadata_sinks_;
 
-    std::unordered_map<size_t, std::optional<std::byte*>> scaled_frames_;
+    std::unordered_map<size_t, std::unique_ptr<std::byte[]>> scaled_frames_;
 
     bool is_s3_acquisition_() const;
     bool is_compressed_acquisition_() const;
-- 
2.43.0


From 80b70f30df6428e94d03d9cbda29b1d662e344f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 16/27] fix: release a stream that cannot be finalized

It leaked with its threads, and exceptions escaped through the C API.
---
 src/streaming/acquire.zarr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..9377075 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -151,8 +151,12 @@ extern "C"
 
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
-        if (!finalize_stream(stream)) {
-            return;
+        try {
+            if (!finalize_stream(stream)) {
+                LOG_ERROR("Failed to finalize Zarr stream");
+            }
+        } catch (const std::exception& e) {
+            LOG_ERROR("Error finalizing Zarr stream: ", e.what());
         }
 
         delete stream;
-- 
2.43.0


From 06e38fd7acb0d6700440251d87efc2e961c5c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 17/27] fix: refuse null names and S3 settings instead of
 crashing

---
 src/streaming/zarr.stream.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index c6a7412..582fa39 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -29,18 +29,31 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
     return nullptr != settings->compression_settings;
 }
 
+[[nodiscard]] bool
+is_null_or_empty(const char* s, std::string_view err_on_empty)
+{
+    if (s == nullptr) {
+        LOG_ERROR(err_on_empty);
+        return true;
+    }
+    return zarr::is_empty_string(s, err_on_empty);
+}
+
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
-    if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
+    if (is_null_or_empty(settings->endpoint, "S3 endpoint is empty")) {
+        return false;
+    }
+    if (is_null_or_empty(settings->access_key_id,
+                         "S3 access key ID is empty")) {
         return false;
     }
-    if (zarr::is_empty_string(settings->access_key_id,
-                              "S3 access key ID is empty")) {
+    if (is_null_or_empty(settings->secret_access_key,
+                         "S3 secret access key is empty")) {
         return false;
     }
-    if (zarr::is_empty_string(settings->secret_access_key,
-                              "S3 secret access key is empty")) {
+    if (is_null_or_empty(settings->bucket_name, "S3 bucket name is empty")) {
         return false;
     }
 
@@ -159,7 +172,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
-    if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
+    if (is_null_or_empty(dimension->name, "Dimension name is empty")) {
         return false;
     }
 
-- 
2.43.0


From 5dfdb470509c5a603bc88da8b72e930eb3116494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 18/27] fix: accept compression settings that select no
 compressor

They were validated, then failed for want of a codec.
---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 582fa39..a405eac 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -555,7 +555,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
         };
     }
 
-    if (is_compressed_acquisition(settings)) {
+    if (is_compressed_acquisition(settings) &&
+        settings->compression_settings->compressor != ZarrCompressor_None) {
         compression_settings_ = {
             .compressor = settings->compression_settings->compressor,
             .codec = settings->compression_settings->codec,
-- 
2.43.0


From 86907d7060d00bec0dda903932f93dad530fdc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 19/27] fix: store an empty object when the custom metadata is
 an empty string

acquire.json was left empty, which is not JSON.
---
 src/streaming/zarr.stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index a405eac..fbf21b3 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -539,7 +539,7 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
     store_path_ = zarr::trim(settings->store_path);
-    if (settings->custom_metadata) {
+    if (settings->custom_metadata && *settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     } else {
         custom_metadata_ = "{}";
-- 
2.43.0


From 8f926ff89ae9e84407a6d2653fc4b61cd22d1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 20/27] fix: write 0/.zattrs as a JSON document instead of an
 empty file

---
 src/streaming/zarr.stream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index fbf21b3..3d439d8 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -778,6 +778,16 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    if (version_ == 2) { // no attributes of its own for the array
+        const std::string attrs = nlohmann::json::object().dump(4);
+        std::span attrs_data{ reinterpret_cast<const std::byte*>(attrs.data()),
+                              attrs.size() };
+        if (!metadata_sinks_.at("0/.zattrs")->write(0, attrs_data)) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 5e5470beb260747ddaa1c348280dac54830f6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 21/27] fix: end the resolution pyramid when nothing is left to
 halve

With chunks of a single pixel, no chunk ever shrank and creating the stream
never ended.
---
 src/streaming/array.writer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 923acd6..2ded365 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -27,7 +27,7 @@ zarr::downsample(const ArrayWriterConfig& config,
             downsampled_dims[i] = dim;
         } else {
             const uint32_t array_size_px =
-              (dim.array_size_px + (dim.array_size_px % 2)) / 2;
+              dim.array_size_px / 2 + dim.array_size_px % 2;
 
             const uint32_t chunk_size_px =
               dim.array_size_px == 0
@@ -63,6 +63,7 @@ zarr::downsample(const ArrayWriterConfig& config,
     downsampled_config.compression_params = config.compression_params;
 
     // can we downsample downsampled_config?
+    bool is_smaller = false;
     for (auto i = 0; i < config.dimensions->ndims(); ++i) {
         // downsampling made the chunk size strictly smaller
         const auto& dim = config.dimensions->at(i);
@@ -71,9 +72,11 @@ zarr::downsample(const ArrayWriterConfig& config,
         if (dim.chunk_size_px > downsampled_dim.chunk_size_px) {
             return false;
         }
+        is_smaller |= downsampled_dim.array_size_px < dim.array_size_px;
     }
 
-    return true;
+    // nothing left to halve if all chunks are one pixel wide
+    return is_smaller;
 }
 
 /// Writer
-- 
2.43.0


From 0bdd6f0675cfaef0ec4f8f1744a70e46d81baeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 22/27] fix: return the S3 connection when a request on it
 fails

An upload that could not be created or completed lost its connection, so that
later requests waited for ever, and an upload that was never created was taken
for one in progress.
---
 src/streaming/s3.sink.cpp     | 33 ++++++++++++++++++++++++---------
 src/streaming/s3.sink.hh      |  4 +++-
 src/streaming/zarr.stream.cpp |  5 +++--
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..ff70b44 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -125,16 +125,26 @@ zarr::S3Sink::is_multipart_upload_() const
     return multipart_upload_.has_value();
 }
 
-void
+bool
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
 
+    bool retval = false;
+    try {
+        std::string upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+        multipart_upload_ = MultiPartUpload{ .upload_id = upload_id };
+
+        retval = true;
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
+
+    // cleanup
     connection_pool_->return_connection(std::move(connection));
+
+    return retval;
 }
 
 bool
@@ -144,8 +154,8 @@ zarr::S3Sink::flush_part_()
         return false;
     }
 
-    if (!is_multipart_upload_()) {
-        create_multipart_upload_();
+    if (!is_multipart_upload_() && !create_multipart_upload_()) {
+        return false;
     }
 
     auto connection = connection_pool_->get_connection();
@@ -194,8 +204,13 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(connection));
 
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 49d2219..83feff2 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -55,8 +55,10 @@ class S3Sink : public Sink
 
     /**
      * @brief Create a new multipart upload.
+     * @returns True if the multipart upload was successfully created,
+     * otherwise false.
      */
-    void create_multipart_upload_();
+    [[nodiscard]] bool create_multipart_upload_();
 
     /**
      * @brief Flush the current part to S3.
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 3d439d8..3a81530 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -614,11 +614,12 @@ ZarrStream_s::create_store_()
 
         // test the S3 connection
         auto conn = s3_connection_pool_->get_connection();
-        if (!conn->is_connection_valid()) {
+        const bool is_valid = conn->is_connection_valid();
+        s3_connection_pool_->return_connection(std::move(conn));
+        if (!is_valid) {
             set_error_("Failed to connect to S3");
             return false;
         }
-        s3_connection_pool_->return_connection(std::move(conn));
     } else {
         if (fs::exists(store_path_)) {
             // remove everything inside the store path
-- 
2.43.0


From 84c9bf5de1400a27ef45ce27ae5306ef4ad96a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 23/27] fix: reject enum settings above the signed range too

---
 src/streaming/zarr.stream.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 3a81530..7919185 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -29,6 +29,15 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
     return nullptr != settings->compression_settings;
 }
 
+/// Whether the value is one of the @p count enumerators counted from zero. The
+/// comparison is unsigned, as an enum may be promoted to a signed type.
+template<typename Enum>
+[[nodiscard]] bool
+is_valid_enumerator(Enum value, Enum count)
+{
+    return static_cast<uint32_t>(value) < static_cast<uint32_t>(count);
+}
+
 [[nodiscard]] bool
 is_null_or_empty(const char* s, std::string_view err_on_empty)
 {
@@ -103,12 +112,12 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (!is_valid_enumerator(settings->compressor, ZarrCompressorCount)) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (!is_valid_enumerator(settings->codec, ZarrCompressionCodecCount)) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -176,7 +185,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (!is_valid_enumerator(dimension->type, ZarrDimensionTypeCount)) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -232,7 +241,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (!is_valid_enumerator(settings->data_type, ZarrDataTypeCount)) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From f5f515c1c515411610da29260ac06b2ea59508e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 24/27] fix: finalise and drop all data sinks even when one of
 them fails

---
 src/streaming/array.writer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 2ded365..ab2962a 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -438,12 +438,18 @@ zarr::ArrayWriter::flush_()
 void
 zarr::ArrayWriter::close_sinks_()
 {
+    // a failure must neither keep the other sinks open nor leave moved-from
+    // sinks behind
+    bool all_successful = true;
     for (auto i = 0; i < data_sinks_.size(); ++i) {
-        EXPECT(finalize_sink(std::move(data_sinks_[i])),
-               "Failed to finalize sink ",
-               i);
+        if (!finalize_sink(std::move(data_sinks_[i]))) {
+            LOG_ERROR("Failed to finalize sink ", i);
+            all_successful = false;
+        }
     }
     data_sinks_.clear();
+
+    EXPECT(all_successful, "Failed to finalize sinks");
 }
 
 void
-- 
2.43.0


From 824409aa69dff66af0d59a8b6d114a5ce80bf3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:38 +0000
Subject: [PATCH 25/27] fix: leave no null data sinks behind when some cannot
 be created

---
 src/streaming/sink.creator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c74d2f9..670c0eb 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -354,7 +354,12 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
 
     latch.wait();
 
-    return (bool)all_successful;
+    if (!all_successful) { // nothing usable: leave no null sinks behind
+        sinks.clear();
+        return false;
+    }
+
+    return true;
 }
 
 bool
-- 
2.43.0


From 64317bb0427a9f6d61849ff11a9aa413224ad4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:31 +0000
Subject: [PATCH 26/27] fix: append the logical contents of non-contiguous
 NumPy arrays

PyZarrStream::append passed the start of the array's memory and its size in
bytes on to the library, whatever the strides: of a transposed, sliced or
broadcast view it stored other bytes than the view's, and could read past the
end of the buffer.
---
 python/acquire-zarr-py.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index f50d7e0..6f76830 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -376,7 +376,14 @@ class PyZarrStream
             throw py::error_already_set();
         }
 
-        auto buf = image_data.request();
+        // the stream takes the elements in row-major order, so copy a view whose
+        // elements are not laid out that way
+        auto contiguous = py::array::ensure(image_data, py::array::c_style);
+        if (!contiguous) {
+            throw py::error_already_set();
+        }
+
+        auto buf = contiguous.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
         size_t bytes_out;
-- 
2.43.0


From 8bc269d004c18b0b0cbfa78eac0b5453195cd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:31 +0000
Subject: [PATCH 27/27] fix: raise when an array was only partly appended from
 Python

The library reports how many bytes it took; the binding ignored the number, so
that data could be lost without an exception.
---
 python/acquire-zarr-py.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index 6f76830..69bec3b 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -386,9 +386,10 @@ class PyZarrStream
         auto buf = contiguous.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
-        size_t bytes_out;
-        auto status = ZarrStream_append(
-          stream_.get(), ptr, buf.itemsize * buf.size, &bytes_out);
+        const size_t bytes_in = buf.itemsize * buf.size;
+        size_t bytes_out = 0;
+        auto status =
+          ZarrStream_append(stream_.get(), ptr, bytes_in, &bytes_out);
 
         if (status != ZarrStatusCode_Success) {
             std::string err = "Failed to append data to Zarr stream: " +
@@ -396,6 +397,14 @@ class PyZarrStream
             PyErr_SetString(PyExc_RuntimeError, err.c_str());
             throw py::error_already_set();
         }
+
+        if (bytes_out < bytes_in) {
+            std::string err = "Failed to append data to Zarr stream: only " +
+                              std::to_string(bytes_out) + " of " +
+                              std::to_string(bytes_in) + " bytes were written";
+            PyErr_SetString(PyExc_RuntimeError, err.c_str());
+            throw py::error_already_set();
+        }
     }
 
     bool is_active() const { return static_cast<bool>(stream_); }
-- 
2.43.0

