From 8bf8238ec65387d8eff513bbe45f7df6cf9ce44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 01/42] fix: write gzip, not zlib, streams to new zarr v3
 datasets

The metadata of a zarr v3 dataset names the gzip codec, but the object
returned by the creation used the zlib wrapper unless told otherwise, so
its chunks did not match the metadata (and differed from those written
after reopening the dataset).
---
 include/z5/metadata.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..cc2e771 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -477,7 +477,9 @@ namespace z5 {
         // add the default compression options if necessary
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
-        types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
+        // NOTE only zarr v2 knows the zlib wrapper; n5 and zarr v3 call the codec (and store it as) gzip
+        types::defaultCompressionOptions(internalCompressor, internalCompressionOptions,
+                                         createAsZarr && zarrFormat == 2);
 
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
-- 
2.43.0


From 3bc0b8d699e16a2095829534a3b90449931016ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 02/42] fix: ignore the fill value for n5 datasets

n5 metadata cannot store a fill value. A dataset created with one used it
until it was closed (dropping chunks that hold only this value) and zero
once it was opened again, which lost the data.
---
 include/z5/metadata.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index cc2e771..07efa94 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -500,7 +500,8 @@ namespace z5 {
         metadata = DatasetMetadata(internalDtype, shape,
                                    chunkShape, createAsZarr,
                                    internalCompressor, internalCompressionOptions,
-                                   fillValue, zarrDelimiter,
+                                   // n5 has no fill value in the metadata: it is always zero
+                                   createAsZarr ? fillValue : 0., zarrDelimiter,
                                    zarrFormat, chunkKeyEncoding, shardShape);
     }
 
-- 
2.43.0


From b00fe0a7065e2387bdea709cbf5035fa5706e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 03/42] fix: replace stored files atomically and report all
 write errors

Chunks, shards, attributes and metadata were truncated and rewritten in
place: a full disk, an I/O error or a killed process in the middle left
an empty or partial file instead of the old or the new content (losing
e.g. all chunks of a shard or the metadata of a dataset), and errors that
only show up when the file is flushed or closed (everything below 8 kB,
and all errors for json files) were dropped, so that a failed write
looked like a success.
---
 include/z5/filesystem/attributes.hxx | 10 ++---
 include/z5/filesystem/metadata.hxx   |  4 +-
 include/z5/filesystem/store.hxx      | 56 +++++++++++++++++++++++-----
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..6a5a361 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -1,9 +1,9 @@
 #pragma once
 
 #include <fstream>
-#include <iomanip>
 
 #include "z5/filesystem/handle.hxx"
+#include "z5/filesystem/store.hxx"
 #include "z5/generic/attributes.hxx"
 
 
@@ -43,16 +43,12 @@ namespace attrs_detail {
 
         // compact serialization (zarr v2 '.zattrs', n5 'attributes.json')
         inline void write(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << j;
-            file.close();
+            store_detail::writeFile(base_ / name, j.dump(), "json");
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << std::setw(4) << j << std::endl;
-            file.close();
+            store_detail::writeFile(base_ / name, j.dump(4) + "\n", "json");
         }
 
     private:
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..409ab66 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -10,9 +10,7 @@ namespace filesystem {
 namespace metadata_detail {
 
     inline void writeMetadata(const fs::path & path, const nlohmann::json & j) {
-        std::ofstream file(path);
-        file << std::setw(4) << j << std::endl;
-        file.close();
+        store_detail::writeFile(path, j.dump(4) + "\n", "json");
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..514caa2 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -1,7 +1,15 @@
 #pragma once
 
+#include <atomic>
 #include <fstream>
 #include <ios>
+#include <string>
+
+#ifdef _WIN32
+#include <process.h>
+#else
+#include <unistd.h>
+#endif
 
 #include "z5/filesystem/handle.hxx"
 #include "z5/generic/store.hxx"
@@ -13,6 +21,14 @@ namespace filesystem {
 
 namespace store_detail {
 
+    inline long processId() {
+        #ifdef _WIN32
+        return _getpid();
+        #else
+        return getpid();
+        #endif
+    }
+
     // 'what' names the object kind ("chunk" / "shard") in error messages
     inline void readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
         // open input stream and read the filesize
@@ -36,16 +52,38 @@ namespace store_detail {
         file.close();
     }
 
-    inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
-        std::ofstream file(path, std::ios::binary);
-        if(!file.is_open()) {
-            throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
-        }
-        file.write(buffer.data(), buffer.size());
-        if(!file.good()) {
-            throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+    // Replace the file at 'path', or throw and leave it as it was. The content goes
+    // to a temporary file in the same directory, which takes the place of the old
+    // file once it is complete: neither a failed write (e.g. disk full) nor a killed
+    // process destroys the old content, and readers never see a partial file.
+    inline void writeFile(const fs::path & path, const char * data, const std::size_t size, const char * what) {
+        static std::atomic<unsigned long> counter{0};
+        const fs::path tmpPath = path.parent_path() / ("." + path.filename().string() + "." +
+                                                       std::to_string(processId()) + "." +
+                                                       std::to_string(counter++) + ".tmp");
+        try {
+            std::ofstream file(tmpPath, std::ios::binary);
+            if(!file.is_open()) {
+                throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
+            }
+            file.write(data, size);
+            // the last part of the data may only be written out by close
+            file.close();
+            if(!file.good()) {
+                throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+            }
+            fs::rename(tmpPath, path);
+        } catch(...) {
+            std::error_code ec;
+            fs::remove(tmpPath, ec);
+            throw;
         }
-        file.close();
+    }
+
+    // convenience overload for anything contiguous (vector, string)
+    template<class BUFFER>
+    inline void writeFile(const fs::path & path, const BUFFER & buffer, const char * what) {
+        writeFile(path, buffer.data(), buffer.size(), what);
     }
 
 }  // namespace store_detail
-- 
2.43.0


From 558941bd11748f4ca6918595e79aeeefa8abce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 04/42] fix: treat a file removed between the existence check
 and the read as absent

---
 include/z5/filesystem/store.hxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 514caa2..f1696c5 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -106,7 +106,15 @@ namespace store_detail {
             if(!fs::exists(chunk.path())) {
                 return false;
             }
-            store_detail::readFile(chunk.path(), buffer, what);
+            try {
+                store_detail::readFile(chunk.path(), buffer, what);
+            } catch(...) {
+                // another thread or process may have removed the file meanwhile
+                if(!fs::exists(chunk.path())) {
+                    return false;
+                }
+                throw;
+            }
             return true;
         }
 
-- 
2.43.0


From 02f27716dcd039e035ca8c893e9efa9282870954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 05/42] fix: reject truncated chunk data for raw, blosc, lz4
 and zstd

A chunk that decodes to fewer bytes than it must hold left the rest of the
output buffer as it was, i.e. reads returned data of other chunks or
uninitialised memory; for blosc, a truncated chunk was read beyond its end.
---
 include/z5/compression/blosc_compressor.hxx | 14 ++++++++++++--
 include/z5/compression/lz4_compressor.hxx   |  4 ++++
 include/z5/compression/zstd_compressor.hxx  |  4 ++++
 include/z5/util/format_data.hxx             |  4 ++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..628579f 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,9 +47,19 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
-            // decompress the data (blosc reads the compressed length from its own header)
+            // blosc reads the compressed length from its own header, so make sure that
+            // there is a header and that it does not claim more than we have
+            std::size_t nBytesOut = 0, nBytesCompressed = 0, blockSize = 0;
+            if(nBytesIn >= BLOSC_MIN_HEADER_LENGTH) {
+                blosc_cbuffer_sizes(dataIn, &nBytesOut, &nBytesCompressed, &blockSize);
+            }
+            if(nBytesOut != sizeOut * sizeof(T) || nBytesCompressed > nBytesIn) {
+                throw std::runtime_error("Blosc decompression failed: truncated or invalid chunk");
+            }
+
+            // decompress the data
             int sizeDecompressed = blosc_decompress_ctx(
                 dataIn, dataOut,
                 sizeOut * sizeof(T),
diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..329c39c 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -51,6 +51,10 @@ namespace compression {
             if(compressed <= 0) {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
+            }
+            // a truncated block may decode without an error
+            if(static_cast<std::size_t>(compressed) != sizeOut * sizeof(T)) {
+                throw std::runtime_error("Exception during lz4 decompression: truncated or invalid chunk");
             }
 		}
 
diff --git a/include/z5/compression/zstd_compressor.hxx b/include/z5/compression/zstd_compressor.hxx
index a1238cf..6df048e 100644
--- a/include/z5/compression/zstd_compressor.hxx
+++ b/include/z5/compression/zstd_compressor.hxx
@@ -49,6 +49,10 @@ namespace compression {
                 std::string err = "Exception during zstd decompression: " +
                                  std::string(ZSTD_getErrorName(decompressed));
                 throw std::runtime_error(err);
+            }
+            // empty input decodes to nothing without an error
+            if(decompressed != sizeOut * sizeof(T)) {
+                throw std::runtime_error("Exception during zstd decompression: truncated or invalid chunk");
             }
 		}
 
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..bdebcc3 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -148,6 +148,10 @@ namespace util {
             if(nBytes > data_size * sizeof(T)) {
                 throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
             }
+            // a truncated chunk must not leave the rest of the caller's buffer as it was
+            if(nBytes < data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk is smaller than the expected chunk size");
+            }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
         } else {
-- 
2.43.0


From efff25c0916bab47cba3ab9d75275bc40dd411c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:28 +0000
Subject: [PATCH 06/42] fix: check n5 chunk headers before trusting them

A damaged header, or a variable-length chunk, made readChunk and partial
region writes overrun the output buffer, and a header that could not be
read was reported as whatever happened to be in memory.
---
 include/z5/filesystem/store.hxx        |  4 ++++
 include/z5/generic/dataset.hxx         |  2 +-
 include/z5/multiarray/array_access.hxx | 21 ++++++++++++++++++++-
 include/z5/util/format_data.hxx        |  4 ++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index f1696c5..8a9de40 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -143,6 +143,8 @@ namespace store_detail {
         static inline bool readVarlenFromHeader(const ChunkHandleType & chunk,
                                                 std::size_t & chunkSize) {
             std::ifstream file(chunk.path(), std::ios::binary);
+            // a header that cannot be read must not be taken for whatever is in memory
+            file.exceptions(std::ios::failbit | std::ios::badbit);
 
             // read the mode
             uint16_t mode;
@@ -174,6 +176,8 @@ namespace store_detail {
         static inline void readShapeFromHeader(const ChunkHandleType & chunk,
                                                types::ShapeType & chunkShape) {
             std::ifstream file(chunk.path(), std::ios::binary);
+            // a header that cannot be read must not be taken for whatever is in memory
+            file.exceptions(std::ios::failbit | std::ios::badbit);
 
             // advance the file by 2 to skip the mode
             file.seekg(2);
diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index e597931..f3615be 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -141,7 +141,7 @@ namespace generic {
                 if(!isZarr_ && fromHeader) {
                     types::ShapeType chunkShape;
                     STORE::readShapeFromHeader(chunk, chunkShape);
-                    return chunkShape[dim];
+                    return chunkShape.at(dim);
                 }
             }
             return chunk.shape()[dim];
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..4d68097 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -277,10 +277,29 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           if(isZarr) {
+                                               ds.readChunk(chunkId, &buf[0]);
+                                               return true;
+                                           }
+                                           // n5: check what is stored before decoding it
+                                           // into the buffer
+                                           std::vector<char> dataBuffer;
+                                           std::size_t storeSize, headerLength;
+                                           ds.readRawChunk(chunkId, dataBuffer);
+                                           if(util::read_n5_header(dataBuffer, storeSize, headerLength)) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
+                                           if(storeSize != buf.size()) {
+                                               throw std::runtime_error(
+                                                   "z5: invalid n5 chunk: does not match the chunk shape");
+                                           }
+                                           ds.decompress(dataBuffer.data() + headerLength,
+                                                         dataBuffer.size() - headerLength,
+                                                         &buf[0], storeSize);
+                                           if(sizeof(T) > 1) {
+                                               util::reverseEndiannessInplace<T>(&buf[0], &buf[0] + storeSize);
+                                           }
                                            return true;
                                        });
             ds.writeChunk(chunkId, &buffer[0]);
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index bdebcc3..f8136d7 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -238,6 +238,10 @@ namespace util {
 
         if(!is_zarr) {
             is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            // the caller's buffer only has room for a full chunk
+            if(!is_varlen && chunk_size > chunk.defaultSize()) {
+                throw std::runtime_error("z5: invalid n5 chunk: larger than the chunk shape");
+            }
         }
 
         // decode straight past the header (no copy / memmove of the payload)
-- 
2.43.0


From c8303aeee9e03888e61f784188e5343c0fc5923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 07/42] fix: wake all threads that wait for the thread pool to
 finish

With two threads in waitFinished only one of them was ever woken.
---
 include/z5/util/threadpool.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..df6da72 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -245,7 +245,8 @@ inline void ThreadPool::init(const ParallelOptions & options)
                         ++processed;
                         --busy;
                         lock.unlock();
-                        finish_condition.notify_one();
+                        // several threads may be waiting
+                        finish_condition.notify_all();
                     }
                 }
             }
-- 
2.43.0


From e630e4a437272c8715b4193499151e9796ab7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 08/42] fix: keep the process alive when threads or tasks
 cannot be created

A pool whose n-th thread failed to start was destroyed with joinable
threads (std::terminate), and a parallel loop that could not enqueue a task
returned while earlier tasks were still using the caller's locals.
---
 include/z5/util/threadpool.hxx | 37 ++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index df6da72..a9be6e6 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -195,6 +195,9 @@ private:
     // helper function to init the thread pool
     void init(const ParallelOptions & options);
 
+    // helper function to stop and join all workers
+    void shutdown();
+
     // need to keep track of threads so we can join them
     std::vector<std::thread> workers;
 
@@ -213,7 +216,7 @@ inline void ThreadPool::init(const ParallelOptions & options)
 {
     const std::size_t actualNThreads = options.getNumThreads();
     for(std::size_t ti = 0; ti<actualNThreads; ++ti)
-    {
+    try {
         workers.emplace_back(
             [ti,this]
             {
@@ -252,9 +255,20 @@ inline void ThreadPool::init(const ParallelOptions & options)
             }
         );
     }
+    catch(...) {
+        // no more threads: the destructor does not run for a pool that could not be
+        // constructed, so the workers started so far have to be joined here
+        shutdown();
+        throw;
+    }
 }
 
 inline ThreadPool::~ThreadPool()
+{
+    shutdown();
+}
+
+inline void ThreadPool::shutdown()
 {
     {
         std::unique_lock<std::mutex> lock(queue_mutex);
@@ -356,7 +370,7 @@ inline void parallel_foreach_impl(
 
     std::vector<std::future<void> > futures;
     while(iter<end)
-    {
+    try {
         const std::size_t lc = (std::min)(workload, chunkedWorkPerThread);
         workload-=lc;
         futures.emplace_back(
@@ -375,6 +389,11 @@ inline void parallel_foreach_impl(
         if(workload==0)
             break;
     }
+    catch(...) {
+        // a task could not be enqueued: those before it still use the caller's locals
+        pool.waitFinished();
+        throw;
+    }
     getFutures(futures);
 }
 
@@ -399,7 +418,7 @@ inline void parallel_foreach_impl(
 
     std::vector<std::future<void> > futures;
     for(;;)
-    {
+    try {
         const std::size_t lc = (std::min)(chunkedWorkPerThread, workload);
         workload -= lc;
         futures.emplace_back(
@@ -427,6 +446,11 @@ inline void parallel_foreach_impl(
         if(workload==0)
             break;
     }
+    catch(...) {
+        // a task could not be enqueued: those before it still use the caller's locals
+        pool.waitFinished();
+        throw;
+    }
     getFutures(futures);
 }
 
@@ -445,7 +469,7 @@ inline void parallel_foreach_impl(
     std::size_t num_items = 0;
     std::vector<std::future<void> > futures;
     for (; iter != end; ++iter)
-    {
+    try {
         // the item must be captured by value: it goes out of scope at the end of
         // this iteration, long before the task runs
         futures.emplace_back(
@@ -457,6 +481,11 @@ inline void parallel_foreach_impl(
         );
         ++num_items;
     }
+    catch(...) {
+        // a task could not be enqueued: those before it still use the caller's locals
+        pool.waitFinished();
+        throw;
+    }
     // NIFTY_CHECK(num_items == nItems || nItems == 0, "parallel_foreach(): Mismatch between num items and begin/end.");
     getFutures(futures);
 }
-- 
2.43.0


From 1b9daa491bbe0e0d4d77f1fddfb4e47fd249ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 09/42] fix: make parallel_foreach compile for forward
 iterators

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index a9be6e6..72ff5bd 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -403,7 +403,7 @@ inline void parallel_foreach_impl(
 template<class ITER, class F>
 inline void parallel_foreach_impl(
     ThreadPool & pool,
-    const std::ptrdiff_t nItems,
+    std::ptrdiff_t nItems,
     ITER iter,
     ITER end,
     F && f,
-- 
2.43.0


From f73fac09d53915ab7e876a1c121ae1e221ba0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 10/42] fix: treat a file removed while it is being opened as
 absent

---
 include/z5/filesystem/store.hxx | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 8a9de40..e19b34c 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <atomic>
+#include <cerrno>
 #include <fstream>
 #include <ios>
 #include <string>
@@ -29,11 +30,16 @@ namespace store_detail {
         #endif
     }
 
+    // Read the whole file; false if there is no such file.
     // 'what' names the object kind ("chunk" / "shard") in error messages
-    inline void readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
+    inline bool readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
         // open input stream and read the filesize
+        errno = 0;
         std::ifstream file(path, std::ios::binary);
         if(!file.is_open()) {
+            if(errno == ENOENT) {
+                return false;
+            }
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for reading: " + path.string());
         }
 
@@ -50,6 +56,7 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: failed to read ") + what + " file: " + path.string());
         }
         file.close();
+        return true;
     }
 
     // Replace the file at 'path', or throw and leave it as it was. The content goes
@@ -106,16 +113,8 @@ namespace store_detail {
             if(!fs::exists(chunk.path())) {
                 return false;
             }
-            try {
-                store_detail::readFile(chunk.path(), buffer, what);
-            } catch(...) {
-                // another thread or process may have removed the file meanwhile
-                if(!fs::exists(chunk.path())) {
-                    return false;
-                }
-                throw;
-            }
-            return true;
+            // false if another thread or process has removed the file meanwhile
+            return store_detail::readFile(chunk.path(), buffer, what);
         }
 
         static inline void write(const ChunkHandleType & chunk, const std::vector<char> & buffer,
-- 
2.43.0


From 8edcfa745eccdae1252d6a417ef8749fece796b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:13 +0000
Subject: [PATCH 11/42] fix: only take a shard index entry for empty if both of
 its fields say so

---
 include/z5/util/sharding.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d4fc63d..fecdebe 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -33,7 +33,7 @@ namespace util {
         uint64_t offset = SHARD_EMPTY;
         uint64_t nbytes = SHARD_EMPTY;
         inline bool empty() const {
-            return offset == SHARD_EMPTY || nbytes == SHARD_EMPTY;
+            return offset == SHARD_EMPTY && nbytes == SHARD_EMPTY;
         }
     };
 
-- 
2.43.0


From 1d03a8f624be12557830b0714662a5b16340666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 12/42] fix: refuse n5 border chunks larger than their clipped
 shape in readChunk

The buffer a caller sizes by getChunkSize or getChunkShape (as z5py does)
was overrun by a border chunk whose header announces up to the full shape.
---
 include/z5/util/format_data.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index f8136d7..5052ed7 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -238,8 +238,8 @@ namespace util {
 
         if(!is_zarr) {
             is_varlen = read_n5_header(buffer, chunk_size, header_length);
-            // the caller's buffer only has room for a full chunk
-            if(!is_varlen && chunk_size > chunk.defaultSize()) {
+            // the caller's buffer only has room for the chunk clipped to the dataset
+            if(!is_varlen && chunk_size > chunk.size()) {
                 throw std::runtime_error("z5: invalid n5 chunk: larger than the chunk shape");
             }
         }
-- 
2.43.0


From 259fba0c4867cba9e05fe66e8ef3106b68daf972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 13/42] fix: do not take a failed HEAD request for an absent S3
 object

---
 include/z5/s3/handle.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3576e42..5b8c0cd 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -246,12 +246,21 @@ namespace detail {
         putObject(client, bucket, key, content.data(), content.size());
     }
 
+    // returns false if the object does not exist, throws on any other error
     inline bool objectExists(Aws::S3::S3Client & client,
                             const std::string & bucket, const std::string & key) {
         Aws::S3::Model::HeadObjectRequest request;
         request.SetBucket(Aws::String(bucket.c_str(), bucket.size()));
         request.SetKey(Aws::String(key.c_str(), key.size()));
-        return client.HeadObject(request).IsSuccess();
+        auto outcome = client.HeadObject(request);
+        if(outcome.IsSuccess()) {
+            return true;
+        }
+        // only a missing object is an absent object
+        if(!isNotFound(outcome.GetError())) {
+            throw makeS3Error("could not probe object in S3", key, outcome.GetError());
+        }
+        return false;
     }
 
     inline void deleteObject(Aws::S3::S3Client & client,
-- 
2.43.0


From 65f5b6ad4336aa6511782989efb524ae141a7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 14/42] fix: throw if listing the keys of an S3 group fails

---
 include/z5/s3/handle.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 5b8c0cd..01446de 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -388,7 +388,7 @@ namespace handle {
             do {
                 auto outcome = client->ListObjectsV2(request);
                 if(!outcome.IsSuccess()) {
-                    break;
+                    throw detail::makeS3Error("could not list objects in S3", bucketPrefix, outcome.GetError());
                 }
                 object_list = outcome.GetResult();
                 for(const auto & common_prefix : object_list.GetCommonPrefixes()) {
-- 
2.43.0


From 821943dbe2d2d0542dd0a437c4907deb6c68e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 15/42] fix: report objects that could not be deleted from S3

---
 include/z5/s3/handle.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 01446de..61a9eb9 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -318,6 +318,14 @@ namespace detail {
             if(!outcome.IsSuccess()) {
                 throw makeS3Error("could not delete objects from S3", prefix, outcome.GetError());
             }
+            // the request can succeed although some of the objects could not be deleted
+            const auto & errors = outcome.GetResult().GetErrors();
+            if(!errors.empty()) {
+                const auto & error = errors.front();
+                throw std::runtime_error("z5: could not delete " + std::to_string(errors.size()) +
+                                         " objects from S3: " + std::string(error.GetKey().c_str()) +
+                                         " (" + std::string(error.GetMessage().c_str()) + ")");
+            }
         }
     }
 
-- 
2.43.0


From 5f987370cd606b19ecbd7abebf0a2484d78911ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 16/42] fix: make new n5 groups exist on S3

---
 include/z5/s3/metadata.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/z5/s3/metadata.hxx b/include/z5/s3/metadata.hxx
index 9d02e9c..4d5fe55 100644
--- a/include/z5/s3/metadata.hxx
+++ b/include/z5/s3/metadata.hxx
@@ -19,6 +19,11 @@ namespace s3 {
     inline void writeMetadata(const z5::handle::Group<GROUP> & handle, const Metadata & metadata) {
         attrs_detail::JsonIO io(handle);
         generic::writeGroupMetadata(io, metadata);
+        // n5 groups have no metadata of their own, but there are no directories on
+        // object storage: without any object below its prefix the group does not exist
+        if(!metadata.isZarr) {
+            io.write("attributes.json", nlohmann::json::object());
+        }
     }
 
 
-- 
2.43.0


From 3a0a2834af7e868875e9d83498119e20484cdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 17/42] fix: accept the most negative valid index

ds[-size] addresses the first element; it was passed on as a negative
start and failed with a TypeError in the bindings.
---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From fea0ac4c0c78857cd3abe28a11a189614e6e1c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 18/42] fix: report empty compression options for uncompressed
 datasets

compression_opts of a dataset with raw compression raised an
AttributeError, because the options were serialized as null.
---
 src/python/lib/dataset.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..2f108ee 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -249,7 +249,8 @@ namespace z5 {
             .def_prop_ro("compression_options", [](const Dataset & ds){
                 types::CompressionOptions opts;
                 ds.getCompressionOptions(opts);
-                nlohmann::json j;
+                // an object also if there are no options (raw compression)
+                nlohmann::json j = nlohmann::json::object();
                 types::compressionTypeToJson(opts, j);
                 return j.dump();
             })
-- 
2.43.0


From 03d6f069ef1328a0d221f0cefcb1c51f2bd4297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 19/42] fix: remove objects without opening them

An interrupted creation or removal can leave a dataset directory without
metadata. It was listed as a member, kept its name taken and could not be
deleted, because deleting opened the dataset first.
---
 src/python/module/z5py/group.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..b785d9a 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -68,11 +68,10 @@ class Group(Mapping):
             raise ValueError("Cannot call delete on file not opened with write permissions.")
         if name not in self:
             raise KeyError("%s does not exist" % name)
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
-            handle.remove()
-        else:
-            _z5py.remove_dataset(self[name]._impl, 1)
+        # remove by the name, without opening the object: an interrupted creation or
+        # removal can leave an object without metadata, which must be removable as well
+        handle = self._handle_factory(self._handle, name.lstrip('/'))
+        handle.remove()
 
     def __getitem__(self, name):
         """ Access group or dataset in the container.
-- 
2.43.0


From 9eab7e0e6f43eeb1160a1341705a5144d0d1d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 20/42] fix: report errors when unpickling a file

An error in reading the metadata was ignored and the file taken for
zarr v2, so that new members of a v3 file were created in v2 format.
---
 src/python/module/z5py/file.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9192344..9808777 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -35,10 +35,7 @@ def _unpickle_file(path, mode_str, dimension_separator):
     obj = File.__new__(File)
     zarr_format = 2
     if handle.is_zarr():
-        try:
-            zarr_format = json.loads(handle.read_metadata()).get('zarr_format', 2)
-        except Exception:
-            pass
+        zarr_format = json.loads(handle.read_metadata()).get('zarr_format', 2)
     Group.__init__(obj, handle, _z5py.Group, parent=obj, name="",
                    dimension_separator=dimension_separator, zarr_format=zarr_format)
     return obj
-- 
2.43.0


From 76e785e8ac040aa26b7c34ba5c5587e8c50ee9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 21/42] fix: report errors when inferring the format of a file

An error in looking for the zarr metadata files was taken for their
absence: a zarr container without a telling extension passed for n5,
and opening it with mode w replaced it by an n5 container.
---
 src/python/module/z5py/file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9808777..22d384c 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -13,6 +13,15 @@ from . import _z5py
 from .group import Group
 
 
+def _exists(path):
+    # unlike os.path.exists, don't take other errors for the absence of the file
+    try:
+        os.stat(path)
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+    return True
+
+
 def _unpickle_s3_file(bucket_name, name_in_bucket, mode_str, zarr_format, dimension_separator,
                       endpoint_url, region, anon, access_key, secret_key):
     # reconstruct the handle directly (without running S3File.__init__, which
@@ -85,8 +94,7 @@ class File(Group):
             zarr_group = os.path.join(path, '.zgroup')
             zarr_array = os.path.join(path, '.zarray')
             zarr_json = os.path.join(path, 'zarr.json')  # zarr v3
-            is_zarr = (os.path.exists(zarr_group) or os.path.exists(zarr_array)
-                       or os.path.exists(zarr_json))
+            is_zarr = _exists(zarr_group) or _exists(zarr_array) or _exists(zarr_json)
         return is_zarr
 
     def __init__(self, path, mode="r", use_zarr_format=None, dimension_separator=".", zarr_format=2):
-- 
2.43.0


From c419eee0da67c1bdcc4be66101076bb557199917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 22/42] fix: refuse chunk shapes with zero entries

Dividing by them killed the process, on creation after the metadata
had been written.
---
 include/z5/metadata.hxx      | 8 +++++++-
 include/z5/util/blocking.hxx | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 07efa94..950b364 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -407,6 +407,12 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            // the number of chunks is computed by dividing by the chunk shape
+            for(const auto chunk : chunkShape) {
+                if(chunk == 0) {
+                    throw std::runtime_error("Chunks of size zero are not supported");
+                }
+            }
         }
 
 
@@ -491,7 +497,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..c64f99a 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <stdexcept>
+
 #include "z5/types/types.hxx"
 #include "z5/util/util.hxx"
 
@@ -224,6 +227,11 @@ namespace util {
                 // be an out-of-bounds write for a zero-dimensional shape)
                 throw std::invalid_argument("z5: zero-dimensional shapes are not supported");
             }
+            // guard the divisions below
+            if(blockShape_.size() != ndim ||
+               std::find(blockShape_.begin(), blockShape_.end(), std::size_t(0)) != blockShape_.end()) {
+                throw std::invalid_argument("z5: the block shape must have a positive entry for each dimension");
+            }
             blocksPerDimension_.resize(ndim);
 
             for(int d = 0; d < ndim; ++d) {
-- 
2.43.0


From 09629cbdf1a028f2382c8405687588a71c4a7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 23/42] fix: refuse chunk indices of the wrong dimension

They were read past their end, and probing took the directories of
nested chunks for chunks.
---
 include/z5/handle.hxx        | 3 +++
 include/z5/util/sharding.hxx | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..38f6764 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != static_cast<std::size_t>(ndim)) {
+                throw std::runtime_error("Invalid chunk: wrong number of indices");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index fecdebe..4b3e8f4 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -4,6 +4,7 @@
 #include <functional>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 #include "z5/types/types.hxx"
@@ -55,6 +56,9 @@ namespace util {
     // outer shard id of an inner chunk id
     inline types::ShapeType shardId(const types::ShapeType & innerId,
                                     const types::ShapeType & cps) {
+        if(innerId.size() != cps.size()) {
+            throw std::runtime_error("Invalid chunk: wrong number of indices");
+        }
         types::ShapeType sid(innerId.size());
         for(std::size_t d = 0; d < innerId.size(); ++d) {
             sid[d] = innerId[d] / cps[d];
-- 
2.43.0


From 033d0440808e2775c54307e481dd683ecb76e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 24/42] fix: refuse requests whose end overflows

---
 include/z5/dataset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..94d8792 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // written such that the sum cannot overflow
+                if(shape[d] > shape_[d] || offset[d] > shape_[d] - shape[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From c4e95a88e2828ad217dc891fdafe05159b670a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 25/42] fix: take a chunk removed while a region is read for
 absent

---
 include/z5/dataset.hxx                 |  4 ++--
 include/z5/gcs/dataset.hxx             |  3 ++-
 include/z5/generic/dataset.hxx         |  4 +++-
 include/z5/generic/sharded_dataset.hxx |  7 ++++---
 include/z5/multiarray/array_access.hxx | 20 ++++++++++----------
 5 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 94d8792..e5cee21 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -127,8 +127,8 @@ namespace z5 {
                                 const bool=false, const std::size_t=0) const = 0;
         // read a chunk - returns True if this is a varlen chunk
         virtual bool readChunk(const types::ShapeType &, void *) const = 0;
-        // read a chunk; return the unformatted data
-        virtual void readRawChunk(const types::ShapeType &, std::vector<char> &) const = 0;
+        // read a chunk; return the unformatted data; false if the chunk does not exist
+        virtual bool readRawChunk(const types::ShapeType &, std::vector<char> &) const = 0;
 
         // check the request type
         virtual void checkRequestType(const std::type_info &) const = 0;
diff --git a/include/z5/gcs/dataset.hxx b/include/z5/gcs/dataset.hxx
index 36ec71b..fe7b479 100644
--- a/include/z5/gcs/dataset.hxx
+++ b/include/z5/gcs/dataset.hxx
@@ -43,9 +43,10 @@ namespace gcs {
             detail::notImplemented();
         }
 
-        inline void readRawChunk(const types::ShapeType & chunkIndices,
+        inline bool readRawChunk(const types::ShapeType & chunkIndices,
                                  std::vector<char> & buffer) const {
             detail::notImplemented();
+            return false;
         }
 
         inline void checkRequestType(const std::type_info & type) const {
diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index f3615be..21b4317 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -89,13 +89,15 @@ namespace generic {
             return is_varlen;
         }
 
-        inline void readRawChunk(const types::ShapeType & chunkIndices,
+        inline bool readRawChunk(const types::ShapeType & chunkIndices,
                                  std::vector<char> & buffer) const {
             ChunkHandleType chunk(handle_, chunkIndices, defaultChunkShape(), shape());
             // a missing chunk yields an empty buffer
             if(!STORE::read(chunk, buffer)) {
                 buffer.clear();
+                return false;
             }
+            return true;
         }
 
         inline void checkRequestType(const std::type_info & type) const {
diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..a8c6963 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -72,20 +72,21 @@ namespace generic {
             return false;  // no varlen in zarr v3
         }
 
-        inline void readRawChunk(const types::ShapeType & chunkIndices,
+        inline bool readRawChunk(const types::ShapeType & chunkIndices,
                                  std::vector<char> & buffer) const {
             std::vector<util::ShardEntry> entries;
             std::vector<char> shardBuf;
             if(!readShard(chunkIndices, shardBuf, entries)) {
                 buffer.clear();
-                return;
+                return false;
             }
             const auto & e = entries[util::shardSlot(chunkIndices, chunksPerShard_)];
             if(e.empty()) {
                 buffer.clear();
-                return;
+                return false;
             }
             buffer.assign(shardBuf.begin() + e.offset, shardBuf.begin() + e.offset + e.nbytes);
+            return true;
         }
 
         inline void checkRequestType(const std::type_info & type) const {
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 4d68097..6e7bbea 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -102,8 +102,11 @@ namespace multiarray {
             // get the view into our array
             const auto outView = subview(out, offsetInRequest, requestShape);
 
-            // check if this chunk exists, if not fill output with fill value
-            if(!ds.chunkExists(chunkId)) {
+            // read the data from storage; if the chunk does not exist, fill the output with
+            // the fill value. The outcome of the read decides, as another thread may remove
+            // the chunk between an existence check and the read
+            std::vector<char> dataBuffer;
+            if(!ds.readRawChunk(chunkId, dataBuffer)) {
                 fillView(outView, fillValue);
                 return;
             }
@@ -113,10 +116,6 @@ namespace multiarray {
             std::size_t chunkSize = std::accumulate(chunkShape.begin(), chunkShape.end(),
                                                     std::size_t(1), std::multiplies<std::size_t>());
 
-            // read the data from storage
-            std::vector<char> dataBuffer;
-            ds.readRawChunk(chunkId, dataBuffer);
-
             // get the shape of the chunk (as it is stored)
             std::size_t chunkStoreSize = maxChunkSize;
             std::size_t headerLength = 0;
@@ -274,18 +273,19 @@ namespace multiarray {
                                        maxChunkSize, fillValue, buffer, chunkShape,
                                        fillRequest,
                                        [&](std::vector<T> & buf) -> bool {
-                                           if(!ds.chunkExists(chunkId)) {
+                                           // the outcome of the read tells whether there
+                                           // is a chunk to preserve (see readSubarrayPlain)
+                                           std::vector<char> dataBuffer;
+                                           if(!ds.readRawChunk(chunkId, dataBuffer)) {
                                                return false;
                                            }
                                            if(isZarr) {
-                                               ds.readChunk(chunkId, &buf[0]);
+                                               ds.decompress(dataBuffer, &buf[0], buf.size());
                                                return true;
                                            }
                                            // n5: check what is stored before decoding it
                                            // into the buffer
-                                           std::vector<char> dataBuffer;
                                            std::size_t storeSize, headerLength;
-                                           ds.readRawChunk(chunkId, dataBuffer);
                                            if(util::read_n5_header(dataBuffer, storeSize, headerLength)) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
-- 
2.43.0


From 590b0cd6432b9739b57d5221223771a54ef94adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 26/42] fix: throw if metadata lacks a field instead of reading
 past it

---
 include/z5/metadata.hxx    | 20 ++++++++++----------
 include/z5/types/types.hxx | 32 ++++++++++++++++----------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 950b364..18cd61c 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -144,14 +144,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            chunkShape = types::ShapeType(j.at("chunks").begin(), j.at("chunks").end());
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -175,9 +175,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id");
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -190,13 +190,13 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = types::ShapeType(j.at("dimensions").rbegin(), j.at("dimensions").rend());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = types::ShapeType(j.at("blockSize").rbegin(), j.at("blockSize").rend());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..6a7c4dc 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -238,26 +238,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
                         options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.at("level").get<int>();
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("acceleration").get<int>(); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,23 +312,23 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.at("level").get<int>();
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
                         options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
                         // load nthreads with default value 1
@@ -336,7 +336,7 @@ namespace types {
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From 09dafbc3614335be98d72aec4a05c712f81b185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:57 +0000
Subject: [PATCH 27/42] fix: refuse metadata with shapes that are no shapes or
 do not agree

---
 include/z5/metadata.hxx | 53 +++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 18cd61c..dc39d91 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <string>
@@ -148,8 +149,8 @@ namespace z5 {
             } catch(std::out_of_range) {
                 throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
-            chunkShape = types::ShapeType(j.at("chunks").begin(), j.at("chunks").end());
+            shape = readShape(j.at("shape"));
+            chunkShape = readShape(j.at("chunks"));
 
             const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
@@ -193,10 +194,12 @@ namespace z5 {
             dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j.at("dimensions").rbegin(), j.at("dimensions").rend());
+            shape = readShape(j.at("dimensions"));
+            std::reverse(shape.begin(), shape.end());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j.at("blockSize").rbegin(), j.at("blockSize").rend());
+            chunkShape = readShape(j.at("blockSize"));
+            std::reverse(chunkShape.begin(), chunkShape.end());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
@@ -321,11 +324,11 @@ namespace z5 {
             } catch(std::out_of_range) {
                 throw std::runtime_error("Unsupported zarr v3 data_type: " + j.at("data_type").get<std::string>());
             }
-            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            shape = readShape(j.at("shape"));
 
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
-            types::ShapeType outerShape(gridShape.begin(), gridShape.end());
+            const types::ShapeType outerShape = readShape(gridShape);
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
@@ -364,7 +367,7 @@ namespace z5 {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
                     const auto & innerShapeJson = scfg.at("chunk_shape");
-                    chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
+                    chunkShape = readShape(innerShapeJson);
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
                     break;
@@ -413,6 +416,42 @@ namespace z5 {
                     throw std::runtime_error("Chunks of size zero are not supported");
                 }
             }
+            // the position of a chunk in its shard is computed from the number of chunks per shard
+            if(!shardShape.empty()) {
+                if(shardShape.size() != chunkShape.size()) {
+                    throw std::runtime_error("Dimension of shards and chunks does not agree");
+                }
+                for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                    if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                        throw std::runtime_error("Shards must be a multiple of the chunks");
+                    }
+                }
+            }
+            // sizes and the coordinates of chunks (incl. the ones at the border) have to fit into size_t
+            const auto & outerShape = shardShape.empty() ? chunkShape : shardShape;
+            std::size_t maxSize = std::numeric_limits<std::size_t>::max() / sizeof(uint64_t);
+            for(std::size_t d = 0; d < shape.size(); ++d) {
+                if(shape[d] > std::numeric_limits<std::size_t>::max() - outerShape[d] || outerShape[d] > maxSize) {
+                    throw std::runtime_error("Shape or chunks are too large");
+                }
+                maxSize /= outerShape[d];
+            }
+        }
+
+
+        // read a shape, the conversion from json would also accept negative, fractional and scalar values
+        static types::ShapeType readShape(const nlohmann::json & j) {
+            if(!j.is_array()) {
+                throw std::runtime_error("Invalid shape in the metadata: " + j.dump());
+            }
+            types::ShapeType shape;
+            for(const auto & extent : j) {
+                if(!extent.is_number_unsigned()) {
+                    throw std::runtime_error("Invalid shape in the metadata: " + j.dump());
+                }
+                shape.push_back(extent.get<types::ShapeType::value_type>());
+            }
+            return shape;
         }
 
 
-- 
2.43.0


From b0727abff5fac7e4f7acfe32a32705ae4cdbd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 28/42] fix: refuse metadata that asks for what z5 does not
 support instead of ignoring it

---
 include/z5/metadata.hxx    | 40 ++++++++++++++++++++++++++++++++++++--
 include/z5/types/types.hxx | 17 ++++++++++++++--
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index dc39d91..2249949 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -59,6 +59,7 @@ namespace z5 {
                 shardShape(shardShape)
         {
             checkShapes();
+            checkChunkKeys();
         }
 
 
@@ -96,6 +97,7 @@ namespace z5 {
                 fromJsonN5(j);
             }
             checkShapes();
+            checkChunkKeys();
         }
 
     private:
@@ -326,6 +328,9 @@ namespace z5 {
             }
             shape = readShape(j.at("shape"));
 
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
+            }
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
             const types::ShapeType outerShape = readShape(gridShape);
@@ -366,9 +371,14 @@ namespace z5 {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
+                    checkSharding(codecs, scfg);
                     const auto & innerShapeJson = scfg.at("chunk_shape");
                     chunkShape = readShape(innerShapeJson);
                     shardShape = outerShape;
+                    // NOTE an empty shard shape means that there is no sharding
+                    if(shardShape.empty()) {
+                        throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: shards need at least one dimension");
+                    }
                     innerCodecs = &scfg.at("codecs");
                     break;
                 }
@@ -377,7 +387,7 @@ namespace z5 {
                 chunkShape = outerShape;
             }
 
-            types::readV3CodecsFromJson(*innerCodecs, compressor, compressionOptions);
+            types::readV3CodecsFromJson(*innerCodecs, types::datatypeSize(dtype), compressor, compressionOptions);
         }
 
     public:
@@ -429,7 +439,7 @@ namespace z5 {
             }
             // sizes and the coordinates of chunks (incl. the ones at the border) have to fit into size_t
             const auto & outerShape = shardShape.empty() ? chunkShape : shardShape;
-            std::size_t maxSize = std::numeric_limits<std::size_t>::max() / sizeof(uint64_t);
+            std::size_t maxSize = std::numeric_limits<std::size_t>::max() / types::datatypeSize(dtype);
             for(std::size_t d = 0; d < shape.size(); ++d) {
                 if(shape[d] > std::numeric_limits<std::size_t>::max() - outerShape[d] || outerShape[d] > maxSize) {
                     throw std::runtime_error("Shape or chunks are too large");
@@ -439,6 +449,32 @@ namespace z5 {
         }
 
 
+        // make sure that the chunk keys are supported (n5 does not use these fields)
+        void checkChunkKeys() const {
+            if(!isZarr) {
+                return;
+            }
+            if(zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("Unsupported delimiter for chunk keys: " + zarrDelimiter);
+            }
+            if(zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Unsupported encoding of chunk keys: " + chunkKeyEncoding);
+            }
+        }
+
+
+        // make sure that shards have the layout z5 reads and writes (see util/sharding.hxx)
+        static void checkSharding(const nlohmann::json & codecs, const nlohmann::json & config) {
+            const auto & indexCodecs = config.at("index_codecs");
+            const bool littleEndian = indexCodecs.size() == 2 && indexCodecs.at(0).at("name") == "bytes" &&
+                indexCodecs.at(0).at("configuration").at("endian") == "little";
+            if(codecs.size() != 1 || !littleEndian || indexCodecs.at(1).at("name") != "crc32c" ||
+               config.value("index_location", std::string("end")) != "end") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported layout of shards");
+            }
+        }
+
+
         // read a shape, the conversion from json would also accept negative, fractional and scalar values
         static types::ShapeType readShape(const nlohmann::json & j) {
             if(!j.is_array()) {
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 6a7c4dc..a7c9dde 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -506,17 +506,27 @@ namespace types {
         }
     }
 
-    // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
+    // parse a zarr v3 codec list into a Compressor + CompressionOptions
+    // (only the little endian ``bytes`` codec and at most one compressor are supported)
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
+                                     std::size_t typesize,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
+        bool hasBytes = false;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
+            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "bytes") {
+                if(typesize > 1 && cfg.value("endian", std::string("little")) != "little") {
+                    throw std::runtime_error("z5: only little endian data is supported for zarr v3");
+                }
+                hasBytes = true;
                 continue;
             }
-            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
+            if(compressor != raw) {
+                throw std::runtime_error("z5: only a single compressor is supported for zarr v3");
+            }
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
                 compressor = zlib;
@@ -546,6 +556,9 @@ namespace types {
                 throw std::runtime_error("z5: unsupported zarr v3 codec: " + name);
             }
         }
+        if(!hasBytes) {
+            throw std::runtime_error("z5: the zarr v3 codecs lack the bytes codec");
+        }
     }
 
     // generic translation from compression type to json
-- 
2.43.0


From 4e0a686c13c4eb0cb849d1e87a7b82e0888c1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:19 +0000
Subject: [PATCH 29/42] fix: resolve keys inside of their group, a leading
 slash or '..' led out of the container

---
 include/z5/attributes.hxx        |  3 ++-
 include/z5/factory.hxx           |  4 ++--
 include/z5/filesystem/handle.hxx |  6 +++---
 include/z5/handle.hxx            | 21 +++++++++++++++++++++
 include/z5/s3/factory.hxx        |  2 +-
 include/z5/s3/handle.hxx         |  6 +++---
 6 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/z5/attributes.hxx b/include/z5/attributes.hxx
index 045644c..04b0e3a 100644
--- a/include/z5/attributes.hxx
+++ b/include/z5/attributes.hxx
@@ -275,7 +275,8 @@ namespace attrs_detail {
 
 
     template<class GROUP>
-    inline bool isSubGroup(const handle::Group<GROUP> & group, const std::string & key){
+    inline bool isSubGroup(const handle::Group<GROUP> & group, const std::string & name){
+        const std::string key = handle::relativeKey(name);
         #ifdef WITH_S3
         if(group.isS3()) {
             return s3::isSubGroup(group, key);
diff --git a/include/z5/factory.hxx b/include/z5/factory.hxx
index 7c324f9..bbb6a70 100644
--- a/include/z5/factory.hxx
+++ b/include/z5/factory.hxx
@@ -19,7 +19,7 @@ namespace z5 {
                                        std::string & zarrDelimiter, int & zarrFormat,
                                        std::string & chunkKeyEncoding) {
             // zarr v3
-            const fs::path v3 = root / key / "zarr.json";
+            const fs::path v3 = root / handle::relativeKey(key) / "zarr.json";
             if(fs::exists(v3)) {
                 nlohmann::json j;
                 std::ifstream file(v3);
@@ -41,7 +41,7 @@ namespace z5 {
                 return;
             }
             // zarr v2
-            const fs::path v2 = root / key / ".zarray";
+            const fs::path v2 = root / handle::relativeKey(key) / ".zarray";
             if(fs::exists(v2)) {
                 nlohmann::json j;
                 std::ifstream file(v2);
diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 94937a2..90b4851 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -57,7 +57,7 @@ namespace handle {
         }
 
         inline bool elementExists(const std::string & name) const {
-            fs::path p = path_ / name;
+            fs::path p = path_ / z5::handle::relativeKey(name);
             return fs::exists(p) && fs::is_directory(p);
         }
 
@@ -83,7 +83,7 @@ namespace handle {
 
         template<class GROUP>
         Group(const z5::handle::Group<GROUP> & group, const std::string & key)
-            : BaseType(group.mode()), HandleImpl(group.path() / key) {
+            : BaseType(group.mode()), HandleImpl(group.path() / z5::handle::relativeKey(key)) {
         }
 
         Group(const fs::path & path, const FileMode mode=FileMode())
@@ -195,7 +195,7 @@ namespace handle {
                 const std::string & zarrDelimiter=".", const int zarrFormat=2,
                 const std::string & chunkKeyEncoding="default")
             : BaseType(group.mode(), zarrDelimiter, zarrFormat, chunkKeyEncoding),
-              HandleImpl(group.path() / key) {
+              HandleImpl(group.path() / z5::handle::relativeKey(key)) {
         }
 
         Dataset(const fs::path & path, const FileMode & mode)
diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 38f6764..d8a5c87 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <set>
+#include <stdexcept>
+#include <string>
+#include <vector>
 #include "z5/types/types.hxx"
 #include "z5/util/file_mode.hxx"
 #include "z5/util/util.hxx"
@@ -36,6 +39,24 @@ namespace handle {
      * be implemented for each backend, see for example "filesystem/dataset.hxx".
      */
 
+    // the key of an object relative to its group: a leading slash stands for the group,
+    // empty and '.' segments have no meaning, and a key must not lead out of its group
+    inline std::string relativeKey(const std::string & key) {
+        std::vector<std::string> segments;
+        util::split(key, segments, "/");
+        std::string out;
+        for(const auto & segment : segments) {
+            if(segment == "..") {
+                throw std::invalid_argument("Invalid key, it leads out of its group: " + key);
+            }
+            if(!segment.empty() && segment != ".") {
+                out += (out.empty() ? "" : "/") + segment;
+            }
+        }
+        return out;
+    }
+
+
     class Handle {
     public:
         Handle(const FileMode mode) : mode_(mode){}
diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 8ad541b..62d38d0 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -38,7 +38,7 @@ namespace factory_detail {
                                    std::string & chunkKeyEncoding) {
         auto client = detail::makeClient(root);
         const auto & bucket = root.bucketName();
-        const std::string base = detail::joinKey(root.nameInBucket(), key);
+        const std::string base = detail::joinKey(root.nameInBucket(), z5::handle::relativeKey(key));
 
         std::string content;
         // zarr v3
diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 61a9eb9..18f0aee 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -414,7 +414,7 @@ namespace handle {
 
         inline bool inImpl(const std::string & name) const {
             auto client = makeClient();
-            const std::string key = detail::joinKey(nameInBucket_, name);
+            const std::string key = detail::joinKey(nameInBucket_, z5::handle::relativeKey(name));
             // exact object (metadata file or zarr v2 "."-delimited chunk)
             if(detail::objectExists(*client, bucketName_, key)) {
                 return true;
@@ -531,7 +531,7 @@ namespace handle {
         Group(const z5::handle::Group<GROUP> & group, const std::string & key)
             : BaseType(group.mode()),
               S3HandleImpl(group.bucketName(),
-                           (group.nameInBucket() == "") ? key : group.nameInBucket() + "/" + key,
+                           detail::joinKey(group.nameInBucket(), z5::handle::relativeKey(key)),
                            group.endpoint(), group.region(), group.anon(),
                            group.accessKey(), group.secretKey()){}
 
@@ -579,7 +579,7 @@ namespace handle {
                 const std::string & chunkKeyEncoding="default")
             : BaseType(group.mode(), zarrDelimiter, zarrFormat, chunkKeyEncoding),
               S3HandleImpl(group.bucketName(),
-                           (group.nameInBucket() == "") ? key : group.nameInBucket() + "/" + key,
+                           detail::joinKey(group.nameInBucket(), z5::handle::relativeKey(key)),
                            group.endpoint(), group.region(), group.anon(),
                            group.accessKey(), group.secretKey()){}
 
-- 
2.43.0


From 0ba5edec3fb923999b73604d830952e76685a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:52 +0000
Subject: [PATCH 30/42] fix: z5py nested names create proper groups in between,
 equivalent names address one object

---
 src/python/module/z5py/group.py | 53 ++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index b785d9a..9f6d587 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -12,6 +12,12 @@ from .dataset import Dataset, _navigate
 from .attribute_manager import AttributeManager
 
 
+def _normalize(name):
+    # the name of an object relative to its group: slashes at the ends, empty and
+    # '.' segments have no meaning
+    return '/'.join(part for part in name.split('/') if part not in ('', '.'))
+
+
 def _unpickle_group(file_obj, name):
     return _navigate(file_obj, name)
 
@@ -61,16 +67,19 @@ class Group(Mapping):
         return len(self._handle.keys())
 
     def __contains__(self, name):
-        return self._handle.has(name.lstrip('/'))
+        return self._handle.has(_normalize(name))
 
     def __delitem__(self, name):
         if not self._handle.mode().can_write():
             raise ValueError("Cannot call delete on file not opened with write permissions.")
+        name = _normalize(name)
+        if not name:
+            raise ValueError("Cannot delete a group by the name of itself.")
         if name not in self:
             raise KeyError("%s does not exist" % name)
         # remove by the name, without opening the object: an interrupted creation or
         # removal can leave an object without metadata, which must be removable as well
-        handle = self._handle_factory(self._handle, name.lstrip('/'))
+        handle = self._handle_factory(self._handle, name)
         handle.remove()
 
     def __getitem__(self, name):
@@ -84,15 +93,18 @@ class Group(Mapping):
         Returns:
             ``Group`` or ``Dataset``.
         """
+        name = _normalize(name)
+        if not name:
+            return self
         if name not in self:
             raise KeyError("Key %s does not exist" % name)
 
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
+        if self.is_sub_group(name):
+            handle = self._handle_factory(self._handle, name)
             return Group(handle, self._handle_factory, self, self._name + '/' + name,
                          self._dimension_separator, self._zarr_format)
         else:
-            return Dataset._open_dataset(self, name.lstrip('/'))
+            return Dataset._open_dataset(self, name)
 
     @property
     def attrs(self):
@@ -147,6 +159,15 @@ class Group(Mapping):
         """
         return self._handle.is_sub_group(name)
 
+    def _require_parent(self, name):
+        # the group holding the object of the given (normalized) name and its name there,
+        # creates the groups in between with proper metadata
+        *parents, name = name.split('/')
+        group = self
+        for parent in parents:
+            group = group.require_group(parent)
+        return group, name
+
     def create_group(self, name):
         """ Create a new group.
 
@@ -163,6 +184,9 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
+        group, name = self._require_parent(_normalize(name))
+        if group is not self:
+            return group.create_group(name)
         handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -179,6 +203,9 @@ class Group(Mapping):
         Returns:
             ``Group``: group of the requested name.
         """
+        name = _normalize(name)
+        if not name:
+            return self
         if name in self:
             if not self.is_sub_group(name):
                 raise TypeError("Incompatible object (Dataset) already exists")
@@ -186,6 +213,9 @@ class Group(Mapping):
         else:
             if not self._handle.mode().can_write():
                 raise ValueError("Cannot create group with read-only permissions.")
+            group, name = self._require_parent(name)
+            if group is not self:
+                return group.require_group(name)
             handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -236,12 +266,9 @@ class Group(Mapping):
             raise KeyError("Dataset %s is already existing." % name)
 
         # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
-        if len(parts) > 1:
-            group = self
-            for part in parts[:-1]:
-                group = group.require_group(part)
-            return group.create_dataset(parts[-1], shape, dtype,
+        group, name = self._require_parent(_normalize(name))
+        if group is not self:
+            return group.create_dataset(name, shape, dtype,
                                         data, chunks, compression,
                                         fillvalue, n_threads,
                                         shards=shards,
@@ -281,6 +308,10 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
+        name = _normalize(name)
+        if '/' in name and self._handle.mode().can_write() and name not in self:
+            group, name = self._require_parent(name)
+            return group.require_dataset(name, shape, dtype, chunks, n_threads, **kwargs)
         return Dataset._require_dataset(self, name, shape, dtype, chunks,
                                         n_threads, dimension_separator=self._dimension_separator,
                                         zarr_format=self._zarr_format, **kwargs)
-- 
2.43.0


From 31674d62ed827007bad55ed340e39ea5bc51721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:02 +0000
Subject: [PATCH 31/42] fix: requests of more than 2^31 elements along an axis
 mixed up their offsets

getCoordinatesInRoi kept the offsets of a chunk from the request in an int:
chunks further than 2^31 - 1 elements from the begin or end of the request
were taken for partially overlapping ones, with wrong offsets and shapes.
---
 include/z5/util/blocking.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index c64f99a..ed74db2 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include <cstddef>
 #include <stdexcept>
 
 #include "z5/types/types.hxx"
@@ -158,7 +159,8 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
+            // signed, but wide enough for the offsets in large requests
+            std::ptrdiff_t offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
-- 
2.43.0


From de3383b19c6e00b8dd79d07d28be26b65d24ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:16 +0000
Subject: [PATCH 32/42] fix: refuse chunks that are too large for bzip2 or zlib
 instead of storing a part of them

both libraries count in unsigned int: of a chunk with 4 GiB or more only the
size modulo 4 GiB was compressed, and the write reported success.
---
 include/z5/compression/bzip2_compressor.hxx | 14 ++++++++++++++
 include/z5/compression/zlib_compressor.hxx  | 11 +++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..4e0a4b8 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -2,6 +2,10 @@
 
 #ifdef WITH_BZIP2
 
+#include <limits>
+#include <stdexcept>
+#include <string>
+
 #include <bzlib.h>
 
 #include "z5/compression/compressor_base.hxx"
@@ -25,6 +29,11 @@ namespace compression {
 
         void compress(const T * dataIn, std::vector<char> & dataOut, std::size_t sizeIn) const {
 
+            // bzip2 counts in unsigned int and would only store a part of larger chunks
+            if(sizeIn > (std::numeric_limits<unsigned int>::max)() / sizeof(T)) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 compression");
+            }
+
             // resize the out data
             dataOut.clear();
             // the output buffer must be 1% + 600 bytes larger than the input
@@ -66,6 +75,11 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            if(sizeOut > (std::numeric_limits<unsigned int>::max)() / sizeof(T) ||
+               nBytesIn > (std::numeric_limits<unsigned int>::max)()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 decompression");
+            }
+
             // create the bzip2 stream
             bz_stream bzs;
             bzs.opaque = NULL;
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..4f9178d 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -9,6 +9,7 @@
 #endif
 
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -127,6 +128,11 @@ namespace compression {
 
         void compress(const T * dataIn, std::vector<char> & dataOut, std::size_t sizeIn) const {
 
+            // zlib counts in unsigned int and would only store a part of larger chunks
+            if(sizeIn > (std::numeric_limits<uInt>::max)() / sizeof(T)) {
+                throw std::runtime_error("z5: chunk is too large for zlib compression");
+            }
+
             // open the zlib stream
             z_stream zs;
             memset(&zs, 0, sizeof(zs));
@@ -172,6 +178,11 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            if(sizeOut > (std::numeric_limits<uInt>::max)() / sizeof(T) ||
+               nBytesIn > (std::numeric_limits<uInt>::max)()) {
+                throw std::runtime_error("z5: chunk is too large for zlib decompression");
+            }
+
             // open the zlib stream
             z_stream zs;
             memset(&zs, 0, sizeof(zs));
-- 
2.43.0


From 370a890f89392e6f9a57e5b383875f9898c1b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:16 +0000
Subject: [PATCH 33/42] fix: refuse n5 chunks whose size does not fit into the
 chunk header

the shape and the variable length are stored with 32 bit and were truncated.
---
 include/z5/util/format_data.hxx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 5052ed7..19664fc 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,10 @@
 #pragma once
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -20,7 +25,14 @@ namespace util {
 
 
     inline void write_n5_header(std::vector<char> & buffer, const types::ShapeType & shape,
-                                const bool isVarlen, const uint32_t varlen) {
+                                const bool isVarlen, const std::size_t varlen) {
+
+        // the header only has room for 32 bit
+        const std::size_t maxEntry = (std::numeric_limits<uint32_t>::max)();
+        if((isVarlen && varlen > maxEntry) ||
+           std::any_of(shape.begin(), shape.end(), [&](const std::size_t s){return s > maxEntry;})) {
+            throw std::runtime_error("z5: chunk is too large for the n5 format");
+        }
 
         const unsigned ndim = shape.size();
         buffer.resize((ndim + 1) * 4);
-- 
2.43.0


From 8dc03cb21e9009acd91d23f9b2ffd2f389e91232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 34/42] fix: utilities over all chunks refuse a value type
 other than the dataset's

removeTrivialChunks, unique and uniqueWithCounts size their chunk buffers for
the given type; a type smaller than the dataset's overran them.
---
 include/z5/util/functions.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 367456c..6a8315b 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -39,6 +39,9 @@ namespace util {
             throw std::invalid_argument(err.c_str());
         }
 
+        // the chunks are read as values of this type
+        dataset.checkRequestType(typeid(T));
+
         // delete trivial chunks in parallel
         parallel_for_each_chunk(dataset, nThreads, [removeSpecificValue,
                                                     value](const int tid,
@@ -88,6 +91,9 @@ namespace util {
     // TODO maybe it would be beneficial to have intermediate unordered sets
     template<class T>
     void unique(const Dataset & dataset, const int nThreads, std::set<T> & uniques) {
+        // the chunks are read as values of this type
+        dataset.checkRequestType(typeid(T));
+
 
         // allocate the per thread data
         // need to get actual number of threads here
@@ -122,6 +128,9 @@ namespace util {
     // TODO maybe it would be beneficial to have intermediate unordered maps
     template<class T>
     void uniqueWithCounts(const Dataset & dataset, const int nThreads, std::map<T, size_t> & uniques) {
+        // the chunks are read as values of this type
+        dataset.checkRequestType(typeid(T));
+
         // allocate the per thread data
         ParallelOptions pOpts(nThreads);
         const int nActualThreads = pOpts.getActualNumThreads();
-- 
2.43.0


From 7551c4000857f71aacb099f095837cdf5732d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:57 +0000
Subject: [PATCH 35/42] fix: S3 objects at the root of a bucket, and the empty
 name, were looked up under wrong keys

Chunks of a dataset at the root of its bucket were looked up under keys with a
leading slash, and the empty name, which on file systems is the group itself,
under keys with a trailing one.
---
 include/z5/s3/handle.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 18f0aee..e51abab 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -64,9 +64,10 @@ namespace detail {
     // small allocation tag for Aws::MakeShared
     static constexpr const char * ALLOC_TAG = "z5";
 
-    // join an object-key prefix with a name (no leading slash for a root prefix)
+    // join an object-key prefix with a name (no leading slash for a root prefix,
+    // no trailing slash for the empty name, which is the prefix itself)
     inline std::string joinKey(const std::string & base, const std::string & name) {
-        return base.empty() ? name : base + "/" + name;
+        return base.empty() ? name : (name.empty() ? base : base + "/" + name);
     }
 
     // build an S3 client configured for the given endpoint / region / credentials.
@@ -413,8 +414,11 @@ namespace handle {
         }
 
         inline bool inImpl(const std::string & name) const {
-            auto client = makeClient();
             const std::string key = detail::joinKey(nameInBucket_, z5::handle::relativeKey(name));
+            if(key == nameInBucket_) {
+                return existsImpl();
+            }
+            auto client = makeClient();
             // exact object (metadata file or zarr v2 "."-delimited chunk)
             if(detail::objectExists(*client, bucketName_, key)) {
                 return true;
@@ -649,8 +653,9 @@ namespace handle {
             : BaseType(chunkIndices, chunkShape, shape, ds.mode()),
               dsHandle_(ds),
               S3HandleImpl(ds.bucketName(),
-                           ds.nameInBucket() + "/" + getChunkKey(ds.isZarr(), ds.zarrDelimiter(),
-                                                                 ds.zarrFormat(), ds.chunkKeyEncoding()),
+                           detail::joinKey(ds.nameInBucket(),
+                                           getChunkKey(ds.isZarr(), ds.zarrDelimiter(),
+                                                       ds.zarrFormat(), ds.chunkKeyEncoding())),
                            ds.endpoint(), ds.region(), ds.anon(),
                            ds.accessKey(), ds.secretKey()){}
 
-- 
2.43.0


From dcc7d3eb347bd459f5ccab765d9a6e04e985a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:01 +0000
Subject: [PATCH 36/42] fix: chunk keys of zarr datasets in groups without
 metadata were not read from the dataset

Opening a dataset through a group that has no metadata of its own (created on
the way to the dataset, or by other tools) ignored the delimiter and the chunk
key encoding: all chunks read as absent, and new ones went to other keys.
---
 include/z5/factory.hxx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/z5/factory.hxx b/include/z5/factory.hxx
index bbb6a70..9197151 100644
--- a/include/z5/factory.hxx
+++ b/include/z5/factory.hxx
@@ -67,9 +67,7 @@ namespace z5 {
         // check if this is a s3 group
         #ifdef WITH_S3
         if(root.isS3()) {
-            if(root.isZarr()) {
-                s3::getZarrChunkConfig(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
-            }
+            s3::getZarrChunkConfig(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
             s3::handle::Dataset ds(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
             return s3::openDataset(ds);
         }
@@ -82,9 +80,8 @@ namespace z5 {
         }
         #endif
 
-        if(root.isZarr()) {
-            factory_detail::getZarrChunkConfig(root.path(), key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
-        }
+        // the metadata of the dataset decides, its group may have none
+        factory_detail::getZarrChunkConfig(root.path(), key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
         filesystem::handle::Dataset ds(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
         return filesystem::openDataset(ds);
     }
-- 
2.43.0


From 3a5f5d7527109b9c1575b1dbedb9451fdaaaf9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:23 +0000
Subject: [PATCH 37/42] fix: arrays of one element were refused for selections
 of one element with another number of dimensions

---
 src/python/module/z5py/shape_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index fe2cd1f..77b4cf1 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -66,6 +66,10 @@ def rectify_shape(arr, required_shape):
     if arr.shape == required_shape:
         return arr
 
+    # a single element fits wherever a single element is required
+    if arr.size == 1 and all(s == 1 for s in required_shape):
+        return arr.reshape(required_shape)
+
     important_shape = list(arr.shape)
     while len(important_shape) > 1:
         if important_shape[0] == 1:
-- 
2.43.0


From ae6b43b4a79e66668f1eafdc45523b5184f32bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:23 +0000
Subject: [PATCH 38/42] fix: n5 major versions of more than one digit were
 taken for their first digit

---
 src/python/module/z5py/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 22d384c..0eb1112 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -154,7 +154,7 @@ class File(Group):
         else:
             version = metadata.get('n5', None)
             if version is not None:
-                major_version = int(version[0])
+                major_version = int(version.split('.')[0])
                 if major_version > 4:
                     raise RuntimeError("Can't open n5 file with major version bigger than 4")
 
-- 
2.43.0


From 48060fc5f8b47bdefcf12640dcc67ddf8a770cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:18 +0000
Subject: [PATCH 39/42] fix: z5py could not open n5 containers whose root
 attributes name no version

---
 src/python/lib/handles.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/lib/handles.cxx b/src/python/lib/handles.cxx
index cc7167a..cbf3de0 100644
--- a/src/python/lib/handles.cxx
+++ b/src/python/lib/handles.cxx
@@ -78,7 +78,7 @@ namespace z5 {
             .def(nb::init<const std::string &, FileMode>(),
                  nb::arg("path"), nb::arg("mode"))
             .def("read_metadata", [](const File & self){
-                nlohmann::json j;
+                nlohmann::json j = nlohmann::json::object();
                 filesystem::readMetadata(self, j);
                 return j.dump();
             }, nb::call_guard<nb::gil_scoped_release>())
-- 
2.43.0


From 54a236a1e1e5041c8d51386986a75a2701e4d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:48 +0000
Subject: [PATCH 40/42] fix: arrays were reshaped into selections that do not
 contain their dimensions next to each other

---
 src/python/module/z5py/shape_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 77b4cf1..02150cd 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -102,7 +102,9 @@ def rectify_shape(arr, required_shape):
             if window[-1] != 1:
                 break
     else:
-        return arr.reshape(required_shape)
+        # the important dimensions have to be found in the required shape
+        if not is_leading:
+            return arr.reshape(required_shape)
 
     raise ValueError(msg)
 
-- 
2.43.0


From d63dc2b263a36d5f8c55398df505d3406785e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:12 +0000
Subject: [PATCH 41/42] fix: empty attribute and metadata documents on S3 were
 taken for documents without entries

---
 include/z5/s3/attributes.hxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/z5/s3/attributes.hxx b/include/z5/s3/attributes.hxx
index 3c3ef5c..12bd443 100644
--- a/include/z5/s3/attributes.hxx
+++ b/include/z5/s3/attributes.hxx
@@ -16,11 +16,8 @@ namespace attrs_detail {
         if(!detail::getObjectString(client, bucket, key, content)) {
             return false;
         }
-        if(content.empty()) {
-            j = nlohmann::json::object();
-        } else {
-            j = nlohmann::json::parse(content);
-        }
+        // NOTE an empty object is not a json document, parsing it throws
+        j = nlohmann::json::parse(content);
         return true;
     }
 
-- 
2.43.0


From cf0810beb89cd1c8e81685c43e1f678044ef4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:15 +0000
Subject: [PATCH 42/42] fix: metadata objects and foreign objects on S3 were
 taken for members of a group

---
 include/z5/s3/handle.hxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index e51abab..5ef11cb 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -427,6 +427,17 @@ namespace handle {
             return anyObjectWithPrefix(*client, key + "/");
         }
 
+        // check for a sub-group or sub-dataset: anything under "name/"
+        // (the single objects next to them, e.g. metadata, are not listed as keys either)
+        inline bool childExists(const std::string & name) const {
+            const std::string key = detail::joinKey(nameInBucket_, z5::handle::relativeKey(name));
+            if(key == nameInBucket_) {
+                return existsImpl();
+            }
+            auto client = makeClient();
+            return anyObjectWithPrefix(*client, key + "/");
+        }
+
         // remove every object under this handle's prefix
         inline void removeImpl() const {
             auto client = makeClient();
@@ -520,7 +531,7 @@ namespace handle {
 
         // Implement the group handle API
         inline void keys(std::vector<std::string> & out) const {keysImpl(out);}
-        inline bool in(const std::string & key) const {return inImpl(key);}
+        inline bool in(const std::string & key) const {return childExists(key);}
 
         Z5_S3_CONFIG_API
         inline std::shared_ptr<Aws::S3::S3Client> makeClient() const {return S3HandleImpl::makeClient();}
@@ -566,7 +577,7 @@ namespace handle {
 
         // Implement the group handle API
         inline void keys(std::vector<std::string> & out) const {keysImpl(out);}
-        inline bool in(const std::string & key) const {return inImpl(key);}
+        inline bool in(const std::string & key) const {return childExists(key);}
 
         Z5_S3_CONFIG_API
         inline std::shared_ptr<Aws::S3::S3Client> makeClient() const {return S3HandleImpl::makeClient();}
-- 
2.43.0

