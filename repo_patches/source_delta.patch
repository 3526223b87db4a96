From d5e47c7c697acbe94bd254b2324959564f3df6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 01/48] fix: create_empty_file must not close a file that could
 not be opened

---
 src/hzip_core/utils/fsutils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/fsutils.h b/src/hzip_core/utils/fsutils.h
index 9c9130c..3e4b9a6 100755
--- a/src/hzip_core/utils/fsutils.h
+++ b/src/hzip_core/utils/fsutils.h
@@ -7,7 +7,10 @@
 
 namespace fsutils {
     HZ_INLINE void create_empty_file(const std::string &path) {
-        fclose(fopen(path.c_str(), "wb"));
+        FILE *fp = fopen(path.c_str(), "wb");
+        if (fp != nullptr) {
+            fclose(fp);
+        }
     }
 
     HZ_INLINE bool check_if_file_exists(const std::string& filename) {
-- 
2.43.0


From 4d8f302a2e1a5cda480fa3d01da844eef3b03ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 02/48] fix: detect failed send and recv calls in
 SocketInterface

---
 src/hzip_network/api/handlers/socket_class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index e64da57..a92f9f9 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -10,11 +10,11 @@ using namespace hzapi;
 
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < n) {
+    if (send(_sock, buf, n, 0) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -28,7 +28,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < n) {
+    if (recv(_sock, buf, n, MSG_WAITALL) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
@@ -39,7 +39,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-- 
2.43.0


From a43c9c2e04e8793d9b95b673324b11865634679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 03/48] fix: hz_unary_write must terminate for n > 1

---
 src/hzip_core/utils/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 6906936..8902327 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -72,6 +72,7 @@ HZ_INLINE std::string hz_sha512(const std::string& str) {
 HZ_INLINE void hz_unary_write(uint64_t n, const std::function<void(uint64_t, uint8_t)>& writefunc) {
     while (n > 1) {
         writefunc(1, 1);
+        n--;
     }
 
     writefunc(0, 1);
-- 
2.43.0


From fa5132e8cbf962407b6a36f0357ed0b2c1043b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 04/48] fix: reset the index of HZ_Stack when it becomes empty

---
 src/hzip_core/utils/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/stack.h b/src/hzip_core/utils/stack.h
index 2870eb9..a3bb4c1 100644
--- a/src/hzip_core/utils/stack.h
+++ b/src/hzip_core/utils/stack.h
@@ -52,9 +52,9 @@ struct HZ_Buffer {
         if (index > 1) {
             index--;
         } else {
-            index = bufsize;
             auto tmp = buffer;
             buffer = buffer->prev;
+            index = buffer == nullptr ? 0 : bufsize;
 
             rfree(tmp);
         }
-- 
2.43.0


From d01d91b25c2838a3f711f0a0f0275f2637960275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 05/48] fix: restart the round-robin of CacheProvider when
 caches are re-initialised

---
 src/hzip_core/runtime/cache_provider.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/runtime/cache_provider.cpp b/src/hzip_core/runtime/cache_provider.cpp
index 2e483b9..b464b3b 100644
--- a/src/hzip_core/runtime/cache_provider.cpp
+++ b/src/hzip_core/runtime/cache_provider.cpp
@@ -19,6 +19,7 @@ void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint
     }
 
     _rainman_cache_count = count;
+    _rainman_cache_index = 0;
 }
 
 std::pair<rainman::cache&, std::mutex &> CacheProvider::get_cache() {
-- 
2.43.0


From a77344b90319ac106f88122f2d89c2ce18c52120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 06/48] fix: initialise the executor of
 LinearU16XColorTransformer

---
 src/hzip_core/preprocessor/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/preprocessor/color.h b/src/hzip_core/preprocessor/color.h
index ebb7209..08b0a89 100644
--- a/src/hzip_core/preprocessor/color.h
+++ b/src/hzip_core/preprocessor/color.h
@@ -87,7 +87,7 @@ namespace hztrans {
 
     class LinearU16XColorTransformer {
     private:
-        hzruntime::Executor _executor;
+        hzruntime::Executor _executor = hzruntime::CPU;
         uint64_t _width;
         uint64_t _height;
         uint8_t _bit_depth;
-- 
2.43.0


From 14e2ecdaae72bd35ec78bc6ae56eecbae9f26198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 07/48] fix: restart the round-robin of ProgramProvider when
 the device set changes

---
 src/hzip_core/opencl/cl_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index f631bd6..faf5055 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -157,6 +157,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 void ProgramProvider::set_device_count(uint64_t device_count) {
     std::scoped_lock<std::mutex> lock(_mutex);
     _device_count = device_count;
+    _device_index = 0;
 }
 
 std::pair<cl::Kernel, std::mutex &> KernelProvider::get(const std::string &program_name) {
-- 
2.43.0


From 3c81ae785c4626de9c4a106f00f420280f9d4828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 08/48] fix: lock-order inversion between ProgramProvider and
 DeviceProvider

---
 src/hzip_core/opencl/cl_helper.cpp | 9 +++++++--
 src/hzip_core/opencl/cl_helper.h   | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index faf5055..8499098 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -123,10 +123,15 @@ void ProgramProvider::clear() {
 }
 
 void ProgramProvider::register_program(const std::string &program_name, const std::string &src) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    // DeviceProvider locks its own mutex before ours, so both have to be taken together here.
+    std::scoped_lock<std::mutex, std::mutex> lock(DeviceProvider::_mutex, _mutex);
 
     if (!_program_map.contains(program_name)) {
-        auto devices = DeviceProvider::get_devices();
+        if (DeviceProvider::_devices.empty()) {
+            throw OpenCLErrors::InvalidOperationException("No devices were loaded");
+        }
+
+        auto devices = DeviceProvider::_devices;
 
         for (const auto &device : devices) {
             cl::Context context(device);
diff --git a/src/hzip_core/opencl/cl_helper.h b/src/hzip_core/opencl/cl_helper.h
index 3612259..5db86ca 100644
--- a/src/hzip_core/opencl/cl_helper.h
+++ b/src/hzip_core/opencl/cl_helper.h
@@ -34,6 +34,9 @@ namespace hzopencl {
         static std::vector<cl::Device> _devices;
         static std::vector<std::mutex> _mutexes;
         static std::mutex _mutex;
+
+        friend class ProgramProvider;
+
     public:
         static void load_devices(uint32_t device_type = CL_DEVICE_TYPE_ALL);
 
-- 
2.43.0


From c0ff41ab67a48ae09f17ad97a6238808df0bfc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 09/48] fix: do not keep a program registered when its build
 fails on a device

---
 src/hzip_core/opencl/cl_helper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 8499098..0cc2c68 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -133,6 +133,8 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 
         auto devices = DeviceProvider::_devices;
 
+        std::vector<cl::Program> programs;
+
         for (const auto &device : devices) {
             cl::Context context(device);
             auto program = cl::Program(context, src);
@@ -154,8 +156,10 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                 }
             }
 
-            _program_map[program_name].push_back(program);
+            programs.push_back(program);
         }
+
+        _program_map[program_name] = programs;
     }
 }
 
-- 
2.43.0


From ff89db3954912173609d6e963548c3f40407dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 10/48] fix: delta transform of an empty array

---
 src/hzip_core/preprocessor/delta.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index 36abf6d..364f64f 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -6,6 +6,10 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 }
 
 void hztrans::DeltaTransformer::transform() {
+    if (length == 0) {
+        return;
+    }
+
     for (uint64_t i = length - 1; i > 0; i--) {
         data[i] -= data[i - 1];
     }
-- 
2.43.0


From 032200d826daa7db9a5c4f7c34095c8df1cbf328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 11/48] fix: pre- and post-increment of the zig-zag iterator
 were swapped

---
 src/hzip_core/preprocessor/zigzag.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index d0d92ba..5d58e39 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -85,18 +85,18 @@ namespace hztrans {
             }
 
             self_type operator++() {
-                self_type i = *this;
                 _val.next(width, height);
                 this->x = _val.x;
                 this->y = _val.y;
-                return i;
+                return *this;
             }
 
             self_type operator++(int) {
+                self_type i = *this;
                 _val.next(width, height);
                 this->x = _val.x;
                 this->y = _val.y;
-                return *this;
+                return i;
             }
 
             bool operator==(const self_type &rhs) { return _val == rhs._val; }
-- 
2.43.0


From 5ca0d13a3e7935d6a97419c2e8c584e1516400bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 12/48] fix: zig-zag scan of a rectangle without cells

---
 src/hzip_core/preprocessor/zigzag.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index 5d58e39..d747d41 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -112,6 +112,10 @@ namespace hztrans {
         };
 
         [[nodiscard]] const_iterator begin() const {
+            if (width == 0 || height == 0) {
+                return end();
+            }
+
             return const_iterator(zigzag_pair(), width, height);
         }
 
-- 
2.43.0


From 36ae321e0667e899f1ee22fafd80bca295f52613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 13/48] fix: hz_u8_to_u32ptr dropped the bytes of a trailing
 partial word

---
 src/hzip_core/utils/utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 8902327..73ae09b 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -137,6 +137,10 @@ HZ_INLINE rainman::ptr<uint32_t> hz_u8_to_u32ptr(const rainman::ptr<uint8_t> &ar
         }
     }
 
+    if (n & 0x3) {
+        arr32[j] = tmp << ((4 - (n & 0x3)) << 3);
+    }
+
     return arr32;
 }
 
-- 
2.43.0


From 441b3dd823f8521f3a97adf06fdbeb5354924d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 14/48] fix: release the archive lock on every exit, also when
 an operation throws

---
 src/hzip_storage/archive/archive.cpp | 99 ++++++++--------------------
 1 file changed, 27 insertions(+), 72 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9fe6f44..d3d3255 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -46,7 +46,7 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 }
 
 void HZ_Archive::hza_scan() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -89,8 +89,6 @@ void HZ_Archive::hza_scan() {
                 break;
         }
     }
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
@@ -242,7 +240,7 @@ rainman::option<uint64_t> HZ_Archive::hza_alloc_fragment(uint64_t length) {
 }
 
 void HZ_Archive::hza_init() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     stream->seek_to(0);
 
@@ -258,15 +256,12 @@ void HZ_Archive::hza_init() {
     stream->seek_to(0);
 
     LOG_F(INFO, "hzip_core.archive: Initialized archive [%s]", path.c_str());
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     // Evaluate length of entry to utilize fragmented-space.
 
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
@@ -319,12 +314,10 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
     for (int i = 0; i < file.blob_ids.size(); i++) {
         stream->write(file.blob_ids[i], 0x40);
     }
-
 }
 
 HZ_ArchiveFile HZ_Archive::hza_read_metadata_file_entry(const std::string &file_path) {
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -335,7 +328,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     auto blob = rainman::ptr<HZ_Blob>();
 
     if (!metadata.blob_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
 
@@ -346,7 +338,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     // Ignore block-marker, block-length and blob-id as we know the blob-format.
     stream->seek(0x88);
 
-
     blob->header = HZ_BlobHeader();
     auto header_len = stream->read(0x40);
 
@@ -377,7 +368,6 @@ uint64_t HZ_Archive::hza_write_blob(const HZ_Blob &blob) {
     // <mstate-id (64-bit)> <blob-data <size (64-bit)> <data (8-bit arr)>>
 
     if (!metadata.mstate_map.contains(blob.mstate_id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(blob.mstate_id);
     }
 
@@ -459,15 +449,12 @@ void HZ_Archive::hza_rm_blob(uint64_t id) {
         // erase entry from blob map
         metadata.blob_map.erase(id);
     } else {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
-
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::hza_read_mstate(uint64_t id) {
     if (!metadata.mstate_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(id);
     }
 
@@ -538,9 +525,8 @@ uint64_t HZ_Archive::hza_write_mstate(const rainman::ptr<HZ_MState>& mstate) {
 void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
@@ -588,14 +574,11 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
 
     // Write mstate-id.
     stream->write(id, 0x40);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_rm_mstate(uint64_t id) {
     if (metadata.mstate_map.contains(id)) {
         if (hza_check_mstate_deps(id)) {
-            mutex.unlock();
             throw ArchiveErrors::InvalidOperationException("mstate dependency detected");
         }
 
@@ -613,7 +596,6 @@ void HZ_Archive::hza_rm_mstate(uint64_t id) {
     } else {
         LOG_F(INFO, "hzip_core.archive: mstate(0x%lx) was not found, operation ignored", id);
     }
-
 }
 
 bool HZ_Archive::hza_check_mstate_deps(uint64_t id) const {
@@ -645,9 +627,8 @@ void HZ_Archive::hza_decrement_dep(uint64_t id) {
 void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ_Blob> &blobs, uint64_t blob_count) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
@@ -659,16 +640,13 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     }
 
     hza_create_metadata_file_entry(file_path, file);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -690,16 +668,13 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     }
 
     hza_metadata_erase_file(file_path);
-
-    mutex.unlock();
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -712,17 +687,14 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
         blobs[i] = *blob;
     }
 
-    mutex.unlock();
-
     return blobs;
 }
 
 void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
@@ -743,57 +715,50 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 
     metadata.mstate_aux_map.erase(_path);
     metadata.mstate_inv_aux_map.erase(id);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_Blob>& blob) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
     blob->mstate_id = metadata.mstate_aux_map.get(_path).data;
 
     blob->mstate = hza_read_mstate(blob->mstate_id);
-
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     uint64_t id = hza_write_mstate(mstate);
-    mutex.unlock();
+
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     hza_rm_mstate(id);
-    mutex.unlock();
 }
 
 void HZ_Archive::close() {
-    mutex.lock();
+    {
+        std::scoped_lock<std::mutex> lock(mutex);
 
-    stream->seek_to(metadata.eof);
-    stream->write(HZ_ArchiveMarker::END, 0x8);
-    stream->flush();
+        stream->seek_to(metadata.eof);
+        stream->write(HZ_ArchiveMarker::END, 0x8);
+        stream->flush();
+    }
 
-    mutex.unlock();
     sem_post(archive_mutex.pointer());
 }
 
@@ -802,61 +767,53 @@ void HZ_Archive::load() {
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     hza_create_metadata_file_entry(file_path, file);
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     uint64_t id = hza_write_blob(*blob);
-    mutex.unlock();
 
     return id;
 }
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     bool v = metadata.file_map.contains(file_path);
-    mutex.unlock();
 
     return v;
 }
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
-    mutex.unlock();
 
     return file;
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     auto blob = hza_read_blob(id);
-    mutex.unlock();
 
     return blob;
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
 
     auto id = metadata.mstate_aux_map.get(_path).data;
     auto mstate = hza_read_mstate(id);
-    mutex.unlock();
 
     return mstate;
 }
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     bool exists = metadata.mstate_aux_map.contains(_path);
-    mutex.unlock();
 
     return exists;
 }
@@ -869,17 +826,15 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     auto list = metadata.file_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     auto list = metadata.mstate_aux_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
-- 
2.43.0


From 68d534dd329b9a16b55c841ed7a51be6389b18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 15/48] fix: the root directory of an empty archive is not an
 entry

---
 src/hzip_storage/archive/archive_trie.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 1b9e16e..1379bdc 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -75,6 +75,11 @@ public:
             throw ArchiveErrors::InvalidOperationException("The given path is a directory");
         }
 
+        if (!is_leaf_node(curr)) {
+            // Only the root of an empty tree has neither a value nor children.
+            throw ArchiveErrors::TargetNotFoundException(path);
+        }
+
         return curr->value;
     }
 
-- 
2.43.0


From a41d35ad636a5d57a0e8034b6833fd8d96384839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 16/48] fix: a rejected create or install must not leave blobs,
 mstates or holes behind

---
 src/hzip_storage/archive/archive.cpp    | 12 +++++++++++
 src/hzip_storage/archive/archive_trie.h | 28 +++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index d3d3255..6cca397 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -265,6 +265,8 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
+    metadata.file_map.check_set(file_path);
+
     uint64_t length = 0;
 
     uint64_t path_length = file_path.length();
@@ -530,6 +532,8 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
+    metadata.mstate_aux_map.check_set(_path);
+
     uint64_t id = hza_write_mstate(mstate);
 
     // Create auxillary mstate-entry.
@@ -632,6 +636,14 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
+    metadata.file_map.check_set(file_path);
+
+    for (uint64_t i = 0; i < blob_count; i++) {
+        if (!metadata.mstate_map.contains(blobs[i].mstate_id)) {
+            throw ArchiveErrors::MstateNotFoundException(blobs[i].mstate_id);
+        }
+    }
+
     HZ_ArchiveFile file{};
     file.blob_ids = rainman::ptr<uint64_t>(blob_count);
 
diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 1379bdc..db97982 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -115,6 +115,34 @@ public:
         curr->is_leaf = true;
     }
 
+    // Throws the exception which set() would throw for the given path.
+    void check_set(const std::string &path) {
+        std::stringstream ss(path);
+
+        std::string token;
+
+        HZ_ArchiveTrieNode<Type> *curr = root;
+        while (std::getline(ss, token, '/')) {
+            if (token.empty()) {
+                continue;
+            }
+
+            if (!curr->children.contains(token)) {
+                if (is_leaf_node(curr)) {
+                    throw ArchiveErrors::InvalidOperationException("A file exists in the path prefix");
+                }
+
+                return;
+            }
+
+            curr = curr->children[token];
+        }
+
+        if (is_dir_node(curr)) {
+            throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
+        }
+    }
+
     bool contains(const std::string &prefix) {
         std::stringstream ss(prefix);
 
-- 
2.43.0


From 2410e7f7322044261f3d38999db201ef9efd2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 17/48] fix: restore mstate dependencies and names when an
 archive is loaded

---
 src/hzip_storage/archive/archive.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 6cca397..4324142 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -146,7 +146,10 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
                 _path += (char) read(0x8);
             }
 
-            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
+            uint64_t mstate_id = read(0x40);
+
+            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));
+            metadata.mstate_inv_aux_map[mstate_id] = true;
             break;
         }
     }
@@ -161,10 +164,19 @@ void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &
 
     uint64_t blob_id = read(0x40);
 
+    // Skip the blob-header and the original size to reach the mstate-id.
+    uint64_t header_length = read(0x40);
+    seek((header_length << 3) + 0x40);
+
+    uint64_t mstate_id = read(0x40);
+
     // Skip the blob data
-    seek(size - 0x40);
+    seek(size - 0x100 - (header_length << 3));
 
     metadata.blob_map[blob_id] = sof;
+
+    // restore dependency
+    hza_increment_dep(mstate_id);
 }
 
 void
-- 
2.43.0


From 0739a81f710ac84af1ce8711316b60031801c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 18/48] fix: remove_file must not stop half-way at a blob that
 is already gone

---
 src/hzip_storage/archive/archive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 4324142..d80cbfc 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -688,7 +688,10 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     });
 
     for (uint64_t i = 0; i < file.blob_ids.size(); i++) {
-        hza_rm_blob(file.blob_ids[i]);
+        // A blob can already be gone if another entry refers to it as well.
+        if (metadata.blob_map.contains(file.blob_ids[i])) {
+            hza_rm_blob(file.blob_ids[i]);
+        }
     }
 
     hza_metadata_erase_file(file_path);
-- 
2.43.0


From 9059777cc1acaf70460bac9962d1cece7284c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 19/48] fix: uninstalling a named mstate by id left its path
 dangling

---
 src/hzip_storage/archive/archive.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index d80cbfc..e05f416 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -774,6 +774,11 @@ uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
     std::scoped_lock<std::mutex> lock(mutex);
+
+    if (metadata.mstate_inv_aux_map.contains(id)) {
+        throw ArchiveErrors::InvalidOperationException("mstate is bound to a path");
+    }
+
     hza_rm_mstate(id);
 }
 
-- 
2.43.0


From 2c13928ec744110230c5349a010f421e56ad3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 20/48] fix: check and initialise the archive file under its
 lock, release the lock exactly once

The existence check, the creation and fopen() happened before the lock was
taken, so a second opener could re-initialise a file written meanwhile; a
failed open or load kept the lock for ever, and closing twice released it
twice. Different spellings of one path used different locks.
---
 src/hzip_storage/archive/archive.cpp | 75 ++++++++++++++++++----------
 src/hzip_storage/archive/archive.h   |  3 ++
 2 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index e05f416..ca9866b 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -8,21 +8,8 @@
 #include <hzip_storage/errors/archive.h>
 
 HZ_Archive::HZ_Archive(const std::string &archive_path) {
-    path = std::filesystem::absolute(archive_path);
-
-    bool init_flag = !fsutils::check_if_file_exists(path);
-
-    if (init_flag) {
-        fsutils::create_empty_file(path);
-    }
-
-    FILE *fp;
-    if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
-        throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
-                                                       std::strerror(errno));
-    }
-
-    stream = rainman::ptr<bitio::stream>(1, fp);
+    // Use one spelling per file, because the lock is named after it.
+    path = std::filesystem::weakly_canonical(std::filesystem::absolute(archive_path));
 
     auto sha512_path = "/" + hz_sha512(path);
 
@@ -36,12 +23,42 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
         throw ArchiveErrors::InvalidOperationException(std::string("sem_open() failed with error: ") + std::strerror(errno));
     }
 
-    sem_wait(archive_mutex.pointer());
+    while (sem_wait(archive_mutex.pointer()) == -1 && errno == EINTR) {}
 
     LOG_F(INFO, "hzip_core.archive: Access granted to archive [%s]", path.c_str());
 
-    if (init_flag) {
-        hza_init();
+    is_open = true;
+
+    try {
+        // Only the owner of the lock may look at the file or initialise it.
+        bool init_flag = !fsutils::check_if_file_exists(path);
+
+        if (init_flag) {
+            fsutils::create_empty_file(path);
+        }
+
+        FILE *fp;
+        if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
+            throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
+                                                           std::strerror(errno));
+        }
+
+        stream = rainman::ptr<bitio::stream>(1, fp);
+
+        if (init_flag) {
+            hza_init();
+        }
+    } catch (...) {
+        hza_unlock();
+        throw;
+    }
+}
+
+void HZ_Archive::hza_unlock() {
+    // Give the archive lock back exactly once.
+    if (is_open) {
+        is_open = false;
+        sem_post(archive_mutex.pointer());
     }
 }
 
@@ -783,19 +800,27 @@ void HZ_Archive::uninstall_mstate(uint64_t id) {
 }
 
 void HZ_Archive::close() {
-    {
-        std::scoped_lock<std::mutex> lock(mutex);
+    std::scoped_lock<std::mutex> lock(mutex);
 
-        stream->seek_to(metadata.eof);
-        stream->write(HZ_ArchiveMarker::END, 0x8);
-        stream->flush();
+    if (!is_open) {
+        return;
     }
 
-    sem_post(archive_mutex.pointer());
+    stream->seek_to(metadata.eof);
+    stream->write(HZ_ArchiveMarker::END, 0x8);
+    stream->flush();
+
+    hza_unlock();
 }
 
 void HZ_Archive::load() {
-    hza_scan();
+    try {
+        hza_scan();
+    } catch (...) {
+        // An archive that cannot be loaded is not open.
+        hza_unlock();
+        throw;
+    }
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index d31142a..e8566f3 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -80,6 +80,9 @@ private:
     rainman::ptr<bitio::stream> stream;
     rainman::ptr<sem_t> archive_mutex{};
     std::mutex mutex{};
+    bool is_open = false;
+
+    void hza_unlock();
 
     void hza_scan();
 
-- 
2.43.0


From 7e4e04bd2026f99dd99175905ab105c6c7497178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 21/48] fix: ArchiveProvider stays usable after an archive
 fails to open

The mutex was never unlocked when opening threw. Two spellings of one path
opened the archive twice, which waits for ever, and a closed archive was
handed out again.
---
 .../api/providers/archive_provider.cpp        | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1a21f51..8775843 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,28 +1,30 @@
 #include "archive_provider.h"
+#include <filesystem>
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
-    mutex.lock();
-    rainman::ptr<HZ_Archive> archive;
-    if (arch_map.contains(path)) {
-        archive = arch_map[path];
-    } else {
-        archive = rainman::ptr<HZ_Archive>(1, path);
-        archive->load();
-
-        arch_map[path] = archive;
+    std::scoped_lock<std::mutex> lock(mutex);
+
+    // Every spelling of a path refers to the same archive.
+    std::string key = std::filesystem::weakly_canonical(std::filesystem::absolute(path));
+
+    if (arch_map.contains(key)) {
+        return arch_map[key];
     }
 
-    mutex.unlock();
+    auto archive = rainman::ptr<HZ_Archive>(1, key);
+    archive->load();
+
+    arch_map[key] = archive;
 
     return archive;
 }
 
 void hzapi::ArchiveProvider::close() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     for (auto &entry : arch_map) {
         entry.second->close();
     }
 
-    mutex.unlock();
+    arch_map.clear();
 }
-- 
2.43.0


From 2182e844c4593508e9f0c6c597be13fc0864337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 22/48] fix: store incompressible blocks with their own mstate

With a shared mstate, a block that does not shrink was stored raw but bound
to the trained mstate, so that decoding it ran the decompressor on raw data.
---
 src/hzip_codec/processor/processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 0193b2d..2bdf133 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -67,7 +67,8 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         blob->mstate_id = job->blob->mstate_id;
 
-        if (job->mstate_addr.is_none()) {
+        // A block that did not shrink is stored raw, so it cannot share the trained mstate.
+        if (job->mstate_addr.is_none() || !blob->status) {
             if (job->archive.is_some()) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
             } else if (job->blob_callback == nullptr) {
-- 
2.43.0


From ed548acecc3b6b593e6601657f805ab714970054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 23/48] fix: a failed training must not drop the existing
 mstate

---
 src/hzip_codec/processor/processor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 2bdf133..b6bbc27 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -121,8 +121,8 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     }
 
     if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+        // Train a copy, the installed mstate is replaced only if training succeeds.
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
-        job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -132,6 +132,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
+        if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
+        }
+
         job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
-- 
2.43.0


From a6526175aa71c8855bf99095c924c985deb396fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 24/48] fix: report exactly one outcome per codec job

A job whose success callback threw was reported as failed as well, and an
exception that is not a std::exception terminated the process.
---
 src/hzip_codec/processor/processor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index b6bbc27..a6e0cc6 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -17,11 +17,23 @@ void HZ_Processor::run(const rainman::ptr<HZ_Job> &job) {
         std::thread([this](const rainman::ptr<HZ_Job> &job) {
             _semaphore.acquire();
 
+            bool failed = false;
+            std::string reason;
+
             try {
                 hzp_run_codec_job(job->codec);
-                HZP_STUB_CALL(job->stub->on_success, "Operation completed successfully");
             } catch (std::exception &e) {
-                HZP_STUB_CALL(job->stub->on_error, e.what());
+                failed = true;
+                reason = e.what();
+            } catch (...) {
+                failed = true;
+                reason = "Unknown error";
+            }
+
+            if (failed) {
+                HZP_STUB_CALL(job->stub->on_error, reason);
+            } else {
+                HZP_STUB_CALL(job->stub->on_success, "Operation completed successfully");
             }
 
             HZP_STUB_CALL(job->stub->on_completed);
-- 
2.43.0


From 96adce9b2009d3d6becbe900dd0eb31d1e3e3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 25/48] fix: make decoding of a streamed blob work

The job was dispatched without its codec part, algorithm and callbacks, the
mstate lost its algorithm, and success was reported whatever happened.
---
 src/hzip_network/api/handlers/streamer.cpp | 29 ++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 718ad51..a8afe5b 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -430,9 +430,6 @@ void Streamer::decode() {
                 break;
             }
             case DECODE_CTL_BLOB_STREAM: {
-                _mutex->lock();
-                _processor->cycle();
-
                 if (!piggy_back) {
                     throw ApiErrors::InvalidOperationError("Piggy-back was disabled");
                 }
@@ -454,10 +451,17 @@ void Streamer::decode() {
 
                 HZ_RECV(&blob->o_size, sizeof(blob->o_size));
 
+                // status: true indicates that the blob is compressed.
+                blob->status = algorithm != hzcodec::algorithms::UNCOMPRESSED;
+
                 if (mstate.is_some()) {
                     blob->mstate = mstate.inner();
+                    blob->mstate->alg = (hzcodec::algorithms::ALGORITHM) algorithm;
                 }
 
+                std::string failure;
+                bool failed = false;
+
                 auto job = rainman::ptr<HZ_Job>();
                 auto codec = rainman::ptr<HZ_CodecJob>();
                 auto stub = rainman::ptr<HZ_JobStub>();
@@ -466,7 +470,7 @@ void Streamer::decode() {
                     codec->mstate_addr = std::string(mstate_addr.inner().pointer());
                 }
                 codec->archive = archive;
-
+                codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
 
                 codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &dblob) {
                     HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
@@ -477,19 +481,30 @@ void Streamer::decode() {
                 codec->blob = blob;
                 codec->job_type = HZ_CodecJob::DECODE;
 
-                job->stub->on_completed = [this]() {
+                stub->on_completed = [this]() {
                     _mutex->unlock();
                 };
 
-                job->stub->on_error = [this](const std::string &msg) {
-                    error(msg);
+                stub->on_error = [&failed, &failure](const std::string &msg) {
+                    failed = true;
+                    failure = msg;
                 };
 
+                job->codec = codec;
+                job->stub = stub;
+                job->type = HZ_Job::CODEC;
+
+                _mutex->lock();
+                _processor->cycle();
                 _processor->run(job);
 
                 _mutex->lock();
                 _mutex->unlock();
 
+                if (failed) {
+                    throw ApiErrors::InvalidOperationError(failure);
+                }
+
                 success("Operation completed successfully");
                 return;
             }
-- 
2.43.0


From 5e809001870bdd022af9a6c578b89f1b2ff601b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 26/48] fix: a stream with a failed block must not be reported
 or stored as complete

After a failed job the streamer went on, stored the file without the block
and sent success. Now the rest of the stream is drained, the client gets one
error reply and no file is created.
---
 src/hzip_network/api/handlers/streamer.cpp | 52 +++++++++++++++++++---
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index a8afe5b..8193e93 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -69,6 +69,9 @@ void Streamer::encode() {
                 // Start raw-streaming using manual sync.
                 HZ_RECV_SYNC;
 
+                std::string failure;
+                bool failed = false;
+
                 while (data_len > 0) {
                     _mutex->lock();
 
@@ -88,6 +91,13 @@ void Streamer::encode() {
                     // Enable raw streaming in hzip_core-protocol
                     t_recv(blob->data.pointer(), max_blob_size, false);
 
+                    // After a failure the rest of the stream is only drained.
+                    if (failed) {
+                        data_len -= max_blob_size;
+                        _mutex->unlock();
+                        continue;
+                    }
+
                     // Construct hz_job struct for processing.
                     auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
@@ -131,8 +141,9 @@ void Streamer::encode() {
                         _mutex->unlock();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
+                    stub->on_error = [&failed, &failure](const std::string &msg) {
+                        failed = true;
+                        failure = msg;
                     };
 
                     job->stub = stub;
@@ -146,6 +157,10 @@ void Streamer::encode() {
                     _mutex->unlock();
                 }
 
+                if (failed) {
+                    throw ApiErrors::InvalidOperationError(failure);
+                }
+
 
                 _mutex->lock();
 
@@ -227,6 +242,9 @@ void Streamer::encode() {
 
                 uint64_t batch_count = 0;
 
+                std::string failure;
+                bool failed = false;
+
                 while (data_len > 0) {
                     _mutex->lock();
                     HZAPI_LOGF(INFO, "[%s] Training [%s] batch: %lu", hzcodec::CodecProvider::algorithm_to_str(
@@ -246,6 +264,13 @@ void Streamer::encode() {
                     // Enable raw streaming in hzip_core-protocol
                     t_recv(blob->data.pointer(), max_blob_size, false);
 
+                    // After a failure the rest of the stream is only drained.
+                    if (failed) {
+                        data_len -= max_blob_size;
+                        _mutex->unlock();
+                        continue;
+                    }
+
                     // Construct hz_job struct for processing.
                     auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
@@ -264,8 +289,9 @@ void Streamer::encode() {
                         _mutex->unlock();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
+                    stub->on_error = [&failed, &failure](const std::string &msg) {
+                        failed = true;
+                        failure = msg;
                     };
 
                     job->codec = codec;
@@ -280,6 +306,10 @@ void Streamer::encode() {
                     _mutex->unlock();
                 }
 
+                if (failed) {
+                    throw ApiErrors::InvalidOperationError(failure);
+                }
+
                 success("Operation completed successfully");
                 return;
             }
@@ -330,7 +360,10 @@ void Streamer::decode() {
 
                 HZ_SEND(&blob_count, sizeof(blob_count));
 
-                for (uint64_t i = 0; i < blob_count; i++) {
+                std::string failure;
+                bool failed = false;
+
+                for (uint64_t i = 0; i < blob_count && !failed; i++) {
                     _mutex->lock();
                     auto src_blob = archive.inner()->read_blob(file_entry.blob_ids[i]);
 
@@ -354,8 +387,9 @@ void Streamer::decode() {
                         _mutex->unlock();
                     };
 
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
+                    stub->on_error = [&failed, &failure](const std::string &msg) {
+                        failed = true;
+                        failure = msg;
                     };
 
                     HZAPI_LOGF(INFO, "[%s] Decompressing blob of size: %lu bytes",
@@ -374,6 +408,10 @@ void Streamer::decode() {
                     _mutex->unlock();
                 }
 
+                if (failed) {
+                    throw ApiErrors::InvalidOperationError(failure);
+                }
+
                 success("Operation completed successfully");
 
                 return;
-- 
2.43.0


From c2aca2e14a6bd271930adf9d4c3fff7cb1b4f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 27/48] fix: do not leak a connection whose setup failed

---
 src/hzip_network/api/api.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index f843087..55c7074 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -133,14 +133,21 @@ Api *Api::process(uint64_t _n_threads) {
         sock_addr_size = sizeof(client_addr);
         int client_sock = accept(server_sock, (sockaddr *) &client_addr, &sock_addr_size);
 
+        if (client_sock < 0) {
+            LOG_F(ERROR, "hzip_network.api: accept() failed");
+            continue;
+        }
+
         if (time_out.tv_sec > 0) {
             if (setsockopt(client_sock, SOL_SOCKET, SO_RCVTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
 
             if (setsockopt(client_sock, SOL_SOCKET, SO_SNDTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
         }
-- 
2.43.0


From 6b648feb6f85d0662f00088fc92c8d2540ec5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 28/48] fix: a session thread that cannot be started must not
 take down the server

---
 src/hzip_network/api/api.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index 55c7074..5851ac6 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -165,12 +165,18 @@ Api *Api::process(uint64_t _n_threads) {
 
         std::string ip = std::string(ip_addr, INET_ADDRSTRLEN + 1);
 
-        std::thread([this, client_sock, ip, client_addr]() {
-            ApiInstance instance(client_sock, processor, passwd, _semaphore, ip, (int) ntohs(client_addr.sin_port),
-                                 archive_provider);
+        try {
+            std::thread([this, client_sock, ip, client_addr]() {
+                ApiInstance instance(client_sock, processor, passwd, _semaphore, ip, (int) ntohs(client_addr.sin_port),
+                                     archive_provider);
 
-            instance.start();
-        }).detach();
+                instance.start();
+            }).detach();
+        } catch (std::exception &e) {
+            LOG_F(ERROR, "hzip_network.api: Failed to start session: %s", e.what());
+            close(client_sock);
+            _semaphore->release();
+        }
 
 
         _semaphore->acquire();
-- 
2.43.0


From 60b25b8bfc568a8b6265f6e6a04f7c85097139ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 29/48] fix: main.cpp must qualify Config with its namespace

---
 src/main.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index ad14b0d..d34df13 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -43,12 +43,12 @@ int main(int argc, const char **argv) {
     setup_logger();
     set_unhandled_exception_handler();
 
-    Config::configure();
+    hzruntime::Config::configure();
 
-    rainman::Allocator().peak_size(Config::host_max_memory);
+    rainman::Allocator().peak_size(hzruntime::Config::host_max_memory);
     LOG_F(INFO, "hybridzip: Max memory usage set to %lu bytes", rainman::Allocator().peak_size());
 
-    auto api = new hzapi::Api(Config::api_threads);
+    auto api = new hzapi::Api(hzruntime::Config::api_threads);
 
     _hzapi_graceful_shutdown = [api]() {
         LOG_F(WARNING, "Gracefully shutting down.");
@@ -57,8 +57,8 @@ int main(int argc, const char **argv) {
 
     set_signal_handlers();
 
-    api->process(Config::processor_threads)
-            ->protect(Config::api_key)
-            ->timeout(timeval{.tv_sec=Config::api_timeout})
-            ->start("127.0.0.1", Config::api_port);
+    api->process(hzruntime::Config::processor_threads)
+            ->protect(hzruntime::Config::api_key)
+            ->timeout(timeval{.tv_sec=hzruntime::Config::api_timeout})
+            ->start("127.0.0.1", hzruntime::Config::api_port);
 }
\ No newline at end of file
-- 
2.43.0


From bbedb402b00ee62e2a0eec9efc51cc43ef9a0d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:44 +0000
Subject: [PATCH 30/48] fix: forget the programs before the locks of their
 devices are replaced

---
 src/hzip_core/opencl/cl_helper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 0cc2c68..b8fd475 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -82,6 +82,9 @@ void DeviceProvider::filter_devices(const std::string &regex_pattern) {
 void DeviceProvider::load_devices(uint32_t device_type) {
     std::scoped_lock<std::mutex> lock(_mutex);
 
+    // A program must not be handed out together with a lock of the new devices.
+    ProgramProvider::clear();
+
     _devices.clear();
     std::vector<cl::Platform> platforms;
     cl::Platform::get(&platforms);
@@ -94,7 +97,6 @@ void DeviceProvider::load_devices(uint32_t device_type) {
 
     _mutexes = std::vector<std::mutex>(_devices.size());
 
-    ProgramProvider::clear();
     ProgramProvider::set_device_count(_devices.size());
 }
 
-- 
2.43.0


From 91d2e82595ac2f7c41fb6eb09184d4bcd55d87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 31/48] fix: receiving an empty field must not wait for more
 data

---
 src/hzip_network/api/handlers/socket_class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index a92f9f9..41a2d29 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -28,7 +28,8 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < (ssize_t) n) {
+    // recv() waits for data even if none is asked for.
+    if (n > 0 && recv(_sock, buf, n, MSG_WAITALL) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
-- 
2.43.0


From d45bdd20f73f9a0206f015d79806267e5ef404f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 32/48] fix: a shared mstate of another algorithm cannot be
 used for encoding

---
 src/hzip_codec/processor/processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index a6e0cc6..2f56bdf 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -68,6 +68,11 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
         }
 
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
+
+        // The block will be decoded with the algorithm of the shared mstate.
+        if (job->blob->mstate->alg != job->algorithm) {
+            throw ProcessorErrors::InvalidOperationError("Mstate belongs to another algorithm");
+        }
     }
 
     auto codec = hzp_get_codec(job->algorithm);
-- 
2.43.0


From d6f5a97d54ce9615cb2758da3498ead0c9bcaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 33/48] fix: training replaces a mstate in one step

---
 src/hzip_codec/processor/processor.cpp |  6 +-----
 src/hzip_storage/archive/archive.cpp   | 20 ++++++++++++++++++++
 src/hzip_storage/archive/archive.h     |  7 +++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 2f56bdf..f64c33b 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -149,11 +149,7 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
-        if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
-            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
-        }
-
-        job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
+        job->archive.inner()->replace_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
     }
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index ca9866b..55cb596 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -557,6 +557,22 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_install_mstate(_path, mstate);
+}
+
+void HZ_Archive::replace_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
+    hz_validate_path(_path);
+
+    // One step, nobody may find or use the path in between.
+    std::scoped_lock<std::mutex> lock(mutex);
+    if (metadata.mstate_aux_map.contains(_path)) {
+        hza_uninstall_mstate(_path);
+    }
+
+    hza_install_mstate(_path, mstate);
+}
+
+void HZ_Archive::hza_install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     if (metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
@@ -738,6 +754,10 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_uninstall_mstate(_path);
+}
+
+void HZ_Archive::hza_uninstall_mstate(const std::string &_path) {
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::MstateNotFoundException(0);
     }
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index e8566f3..63d93fa 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -117,6 +117,10 @@ private:
 
     void hza_rm_mstate(uint64_t id);
 
+    void hza_install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate);
+
+    void hza_uninstall_mstate(const std::string &_path);
+
     [[nodiscard]] bool hza_check_mstate_deps(uint64_t id) const;
 
     void hza_increment_dep(uint64_t id);
@@ -152,6 +156,9 @@ public:
 
     void install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate);
 
+    // Install a mstate in place of the one at the given path, if there is one.
+    void replace_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate);
+
     uint64_t install_mstate(const rainman::ptr<HZ_MState> &mstate);
 
     void uninstall_mstate(const std::string &_path);
-- 
2.43.0


From 001d92a58a66d982db44cc4d600d64a143a9af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:53 +0000
Subject: [PATCH 34/48] fix: an error message that cannot be sent ends the
 session

---
 src/hzip_network/api/api.cpp                   | 9 ++++++++-
 src/hzip_network/api/handlers/socket_class.cpp | 9 +++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index 5851ac6..2aa2628 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -94,7 +94,14 @@ void ApiInstance::start() {
             return;
         } catch (std::exception &e) {
             HZAPI_LOG(ERROR, e.what());
-            error(e.what());
+
+            try {
+                error(e.what());
+            } catch (ApiErrors::ConnectionError &ce) {
+                HZAPI_LOG(ERROR, ce.what());
+                end();
+                return;
+            }
         }
     }
 
diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index 41a2d29..9e3026a 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -53,12 +53,13 @@ void SocketInterface::error(const std::string &msg) const {
     // Error format: <CTLWORD (1B)> <msg len (8B)> <msg (?B)>
 
     uint8_t word = COMMON_CTL_ERROR;
-    send(_sock, &word, sizeof(word), 0);
-
     uint16_t len = msg.length();
 
-    send(_sock, &len, sizeof(len), 0);
-    send(_sock, msg.c_str(), len, 0);
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word) ||
+        send(_sock, &len, sizeof(len), 0) < (ssize_t) sizeof(len) ||
+        send(_sock, msg.c_str(), len, 0) < (ssize_t) len) {
+        throw ApiErrors::ConnectionError("Insufficient data sent");
+    }
 }
 
 void SocketInterface::success(const std::string &msg) {
-- 
2.43.0


From 345ed4db16433f8f0fafbfb934fb3371af473b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 35/48] fix: a connection that fails while a block is sent ends
 the session

---
 src/hzip_network/api/handlers/streamer.cpp | 61 ++++++++++++++++------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 8193e93..e255f8c 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -71,8 +71,9 @@ void Streamer::encode() {
 
                 std::string failure;
                 bool failed = false;
+                bool disconnected = false;
 
-                while (data_len > 0) {
+                while (data_len > 0 && !disconnected) {
                     _mutex->lock();
 
                     // Avoid processor overload.
@@ -119,19 +120,25 @@ void Streamer::encode() {
                     job->codec = codec;
 
                     if (piggy_back) {
-                        codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &cblob) {
+                        codec->blob_callback = [this, &disconnected](const rainman::ptr<HZ_Blob> &cblob) {
                             uint64_t alg = cblob->mstate->alg;
                             uint64_t mstate_len = cblob->mstate->size();
                             uint64_t header_len = cblob->header.size();
-                            HZ_SEND(&alg, sizeof(alg));
-                            HZ_SEND(&mstate_len, sizeof(mstate_len));
-                            HZ_SEND(cblob->mstate->data.pointer(), mstate_len);
 
-                            HZ_SEND(&header_len, sizeof(header_len));
-                            HZ_SEND(cblob->header.raw.pointer(), header_len);
+                            try {
+                                HZ_SEND(&alg, sizeof(alg));
+                                HZ_SEND(&mstate_len, sizeof(mstate_len));
+                                HZ_SEND(cblob->mstate->data.pointer(), mstate_len);
+
+                                HZ_SEND(&header_len, sizeof(header_len));
+                                HZ_SEND(cblob->header.raw.pointer(), header_len);
 
-                            HZ_SEND(&cblob->size, sizeof(cblob->size));
-                            HZ_SEND(cblob->data.pointer(), cblob->size);
+                                HZ_SEND(&cblob->size, sizeof(cblob->size));
+                                HZ_SEND(cblob->data.pointer(), cblob->size);
+                            } catch (ApiErrors::ConnectionError &e) {
+                                disconnected = true;
+                                throw;
+                            }
                         };
                     }
 
@@ -157,6 +164,10 @@ void Streamer::encode() {
                     _mutex->unlock();
                 }
 
+                if (disconnected) {
+                    throw ApiErrors::ConnectionError(failure);
+                }
+
                 if (failed) {
                     throw ApiErrors::InvalidOperationError(failure);
                 }
@@ -362,6 +373,7 @@ void Streamer::decode() {
 
                 std::string failure;
                 bool failed = false;
+                bool disconnected = false;
 
                 for (uint64_t i = 0; i < blob_count && !failed; i++) {
                     _mutex->lock();
@@ -378,9 +390,14 @@ void Streamer::decode() {
                     codec->blob = src_blob;
                     codec->algorithm = src_blob->mstate->alg;
 
-                    codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &dblob) {
-                        HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
-                        HZ_SEND(dblob->data.pointer(), dblob->o_size);
+                    codec->blob_callback = [this, &disconnected](const rainman::ptr<HZ_Blob> &dblob) {
+                        try {
+                            HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
+                            HZ_SEND(dblob->data.pointer(), dblob->o_size);
+                        } catch (ApiErrors::ConnectionError &e) {
+                            disconnected = true;
+                            throw;
+                        }
                     };
 
                     stub->on_completed = [this]() {
@@ -408,6 +425,10 @@ void Streamer::decode() {
                     _mutex->unlock();
                 }
 
+                if (disconnected) {
+                    throw ApiErrors::ConnectionError(failure);
+                }
+
                 if (failed) {
                     throw ApiErrors::InvalidOperationError(failure);
                 }
@@ -499,6 +520,7 @@ void Streamer::decode() {
 
                 std::string failure;
                 bool failed = false;
+                bool disconnected = false;
 
                 auto job = rainman::ptr<HZ_Job>();
                 auto codec = rainman::ptr<HZ_CodecJob>();
@@ -510,9 +532,14 @@ void Streamer::decode() {
                 codec->archive = archive;
                 codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
 
-                codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &dblob) {
-                    HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
-                    HZ_SEND(dblob->data.pointer(), dblob->o_size);
+                codec->blob_callback = [this, &disconnected](const rainman::ptr<HZ_Blob> &dblob) {
+                    try {
+                        HZ_SEND(&dblob->o_size, sizeof(dblob->o_size));
+                        HZ_SEND(dblob->data.pointer(), dblob->o_size);
+                    } catch (ApiErrors::ConnectionError &e) {
+                        disconnected = true;
+                        throw;
+                    }
                 };
 
 
@@ -539,6 +566,10 @@ void Streamer::decode() {
                 _mutex->lock();
                 _mutex->unlock();
 
+                if (disconnected) {
+                    throw ApiErrors::ConnectionError(failure);
+                }
+
                 if (failed) {
                     throw ApiErrors::InvalidOperationError(failure);
                 }
-- 
2.43.0


From d1c20d5e16a65ffd9b34f3b64696b07c51203a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:26 +0000
Subject: [PATCH 36/48] fix: reading a png stops at the end of its data

---
 src/hzip_core/preprocessor/png_bundle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 2ee30eb..cd8ceab 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,6 +1,10 @@
 #include "png_bundle.h"
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
+    if (size * n > buffer.size() - index) {
+        throw TransformErrors::InvalidInputError("unexpected end of png data");
+    }
+
     for (uint64_t i = 0; i < size * n; i++) {
         dst[i] = buffer[index++];
     }
-- 
2.43.0


From 53993cf814dc6f01a19abeae72b08dcc986c9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:26 +0000
Subject: [PATCH 37/48] fix: the png reader is released by the allocator it
 came from

---
 src/hzip_core/preprocessor/png_bundle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index cd8ceab..edaa9ec 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -61,14 +61,15 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         throw TransformErrors::InvalidInputError("png header check failed");
     }
 
-    png_structp png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    png_structp png_ptr = png_create_read_struct_2(
+            PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr,
+            nullptr, png_malloc_fn, png_free_fn
+    );
 
     if (!png_ptr) {
         throw TransformErrors::InvalidOperationError("png_create_read_struct() failed");
     }
 
-    png_set_mem_fn(png_ptr, nullptr, png_malloc_fn, png_free_fn);
-
     png_infop info_ptr = png_create_info_struct(png_ptr);
     if (!info_ptr) {
         png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-- 
2.43.0


From 9856335078dbc43a057838f85cafa590f16acba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:26 +0000
Subject: [PATCH 38/48] fix: png samples of less than 8 bits are read one by
 one

---
 src/hzip_core/preprocessor/png_bundle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index edaa9ec..24436ac 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -88,6 +88,9 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     png_byte nchannels = png_get_channels(png_ptr, info_ptr);
 
+    // Samples of less than 8 bits get a byte each.
+    png_set_packing(png_ptr);
+
     int number_of_passes = png_set_interlace_handling(png_ptr);
 
     png_read_update_info(png_ptr, info_ptr);
-- 
2.43.0


From 6ee6feb3a52fdcb1b0725e9113cbfc99876adf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:26 +0000
Subject: [PATCH 39/48] fix: 16-bit png samples are read whole

---
 src/hzip_core/preprocessor/png_bundle.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 24436ac..62ed35c 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -112,7 +112,13 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     for (uint64_t y = 0, ly = 0; y < height; y++, ly += sy) {
         for (uint64_t x = 0; x < width; x++) {
             for (uint64_t z = 0, lz = 0; z < nchannels; z++, lz += sz) {
-                pixar[lz + ly + x] = row_pointers[y][nchannels * x + z];
+                uint64_t index = nchannels * x + z;
+
+                if (bit_depth == 16) {
+                    pixar[lz + ly + x] = (row_pointers[y][2 * index] << 8) | row_pointers[y][2 * index + 1];
+                } else {
+                    pixar[lz + ly + x] = row_pointers[y][index];
+                }
             }
         }
     }
-- 
2.43.0


From ccbaec887747ef0fafbffb7476006e061b22b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 40/48] fix: the low bytes of deep samples are taken from the
 image, chunk by chunk

---
 src/hzip_codec/sharingan/state_transition.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 3c20615..dfee4ab 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -290,11 +290,11 @@ SharinganStateTransition::cpu_dynamic_precode() {
 
     if (shift != 0) {
         for (uint64_t channel_index = 0; channel_index < _nchannels; channel_index++) {
-            uint64_t channel_offset = residue_segment_offset + channel_index * per_channel_offset;
+            uint64_t channel_offset = channel_index * per_channel_offset;
 
             for (uint64_t y_chunk_index = 0; y_chunk_index < y_chunks; y_chunk_index++) {
                 uint64_t y_chunk_partial_offset = y_chunk_index * _chunk_height;
-                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset;
+                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset * _width;
                 uint64_t chunk_h = y_chunk_partial_offset + _chunk_height > _height ? y_residue : _chunk_height;
 
                 for (uint64_t x_chunk_index = 0; x_chunk_index < x_chunks; x_chunk_index++) {
@@ -315,7 +315,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                             uint64_t residual_symbol = _data[index] & 0xff;
 
                             if (x == 0 && y == 0) {
-                                array.set(uniform_pair(residual_symbol), index);
+                                array.set(uniform_pair(residual_symbol), residue_segment_offset + index);
                             } else {
                                 state.ftable = ls_arr;
 
@@ -325,7 +325,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                                 array.set(SSTPair{
                                         .ls=static_cast<uint32_t>(state.ls),
                                         .bs=static_cast<uint32_t>(state.bs)
-                                }, index);
+                                }, residue_segment_offset + index);
                             }
 
                             f_dist[residual_symbol] += (_learning_rate << 1);
-- 
2.43.0


From 0e773f9bfa37a46eaa3c0e4f2e4a2d5ad62a2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 41/48] fix: the low bytes of deep samples have the same model
 on every executor

---
 src/hzip_codec/sharingan/sharingan_dynamic.cl | 2 +-
 src/hzip_codec/sharingan/state_transition.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/sharingan/sharingan_dynamic.cl b/src/hzip_codec/sharingan/sharingan_dynamic.cl
index cfd14b3..b33ec19 100644
--- a/src/hzip_codec/sharingan/sharingan_dynamic.cl
+++ b/src/hzip_codec/sharingan/sharingan_dynamic.cl
@@ -71,7 +71,7 @@ __kernel void sharingan_dynamic(
 				p.ls = state.ls;
 				p.bs = state.bs;
 				
-				f_dist[curr_symbol] += learning_rate;
+				f_dist[curr_symbol] += (learning_rate << 1);
 				
 				g_output[index] = p;
 			}
diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index dfee4ab..767b31a 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -304,7 +304,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                     uint64_t chunk_w = x_chunk_partial_offset + _chunk_width > _width ? x_residue : _chunk_width;
 
                     // Create dists.
-                    uint64_t f_dist[256] = {1};
+                    uint64_t f_dist[256] = {0};
 
                     // Encode residual symbols if any.
                     for (uint64_t y = 0; y < chunk_h; y++) {
-- 
2.43.0


From f1838fbc90bd4b9cfe3c4aa0c1fe3d5e1f1315c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 42/48] fix: the sharingan kernel clears its frequencies before
 use

---
 src/hzip_codec/sharingan/sharingan_dynamic.cl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hzip_codec/sharingan/sharingan_dynamic.cl b/src/hzip_codec/sharingan/sharingan_dynamic.cl
index b33ec19..82f5112 100644
--- a/src/hzip_codec/sharingan/sharingan_dynamic.cl
+++ b/src/hzip_codec/sharingan/sharingan_dynamic.cl
@@ -57,6 +57,10 @@ __kernel void sharingan_dynamic(
 	if (enable_zero_order) {
 		u64 *f_dist = g_freq_map + (tid << 8);
 		
+		for (u64 i = 0; i < 256; i++) {
+			f_dist[i] = 0;
+		}
+		
 		for (u64 y = 0; y < chunk_y_end; y++) {
 			u64 super_offset = super_chunk_offset + y * width;
 			
@@ -79,6 +83,10 @@ __kernel void sharingan_dynamic(
 	} else {
 		u64 *f_map = g_freq_map + (tid << 16);
 		
+		for (u64 i = 0; i < 65536; i++) {
+			f_map[i] = 0;
+		}
+		
 		for (u64 y = 0; y < chunk_y_end; y++) {
 			u64 super_offset = super_chunk_offset + y * width;
 			
-- 
2.43.0


From e63fad8b7a979aa9e88898214283438b24ad76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 43/48] fix: a kernel argument has the size the kernel declares

---
 src/hzip_codec/sharingan/state_transition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 767b31a..f9d7111 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -439,7 +439,7 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             kernel.setArg(3, _chunk_width);
             kernel.setArg(4, _chunk_height);
             kernel.setArg(5, _locality_context_order);
-            kernel.setArg(6, 0);
+            kernel.setArg(6, static_cast<uint8_t>(0));
             kernel.setArg(7, true);
             kernel.setArg(8, _width);
             kernel.setArg(9, _height);
-- 
2.43.0


From 1930bf131ee69b1aeabd88a1926e84f9c9e030f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 44/48] fix: an image is precoded on the cpu when there is no
 opencl

---
 src/hzip_codec/sharingan/state_transition.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index f9d7111..b93f0e9 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -469,14 +469,14 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
     return std::pair<rainman::virtual_array<SSTPair>, std::mutex &>(array, cache_mutex);
 }
 
+#endif
+
 std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransition::dynamic_precode() {
-    if (hzruntime::Config::opencl_support_enabled) {
-        if (_width * _height > 1000000) {
-            return opencl_dynamic_precode();
-        } else {
-            return cpu_dynamic_precode();
-        }
+#ifdef HZIP_ENABLE_OPENCL
+    if (hzruntime::Config::opencl_support_enabled && _width * _height > 1000000) {
+        return opencl_dynamic_precode();
     }
-}
-
 #endif
+
+    return cpu_dynamic_precode();
+}
-- 
2.43.0


From 993ac6094677a1c2bdeb91a6f30e3fbaa872ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 45/48] fix: the static model of an image splits deep samples
 into their bytes

---
 src/hzip_codec/sharingan/state_transition.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index b93f0e9..53fed35 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -126,14 +126,14 @@ SharinganStateTransition::static_precode() {
                 uint64_t curr_symbol = _data[index] >> shift;
 
                 if (x > 0) {
-                    auto left_symbol = _data[index - 1];
+                    auto left_symbol = _data[index - 1] >> shift;
                     uint32_t ls = ls_chan[left_symbol][curr_symbol];
                     uint32_t bs = bs_chan[left_symbol][curr_symbol];
 
                     array[index] = SSTPair{.ls=ls, .bs=bs};
                 } else if (y > 0) {
                     if (_locality_context_order > 1) {
-                        auto up_symbol = _data[index - _width];
+                        auto up_symbol = _data[index - _width] >> shift;
                         uint32_t ls = ls_chan[up_symbol][curr_symbol];
                         uint32_t bs = bs_chan[up_symbol][curr_symbol];
 
@@ -156,18 +156,18 @@ SharinganStateTransition::static_precode() {
             auto ls_arr = _frequency_dists[channel_index];
             auto bs_arr = _cumulative_dists[channel_index];
 
-            uint64_t channel_offset = residue_offset + per_channel_size * channel_index;
+            uint64_t channel_offset = per_channel_size * channel_index;
             for (uint64_t y = 0; y < _height; y++) {
                 uint64_t y_offset = channel_offset + y * _width;
 
                 for (uint64_t x = 0; x < _width; x++) {
                     uint64_t index = y_offset + x;
-                    uint64_t curr_symbol = _data[index];
+                    uint64_t curr_symbol = _data[index] & 0xff;
 
                     uint32_t ls = ls_arr[curr_symbol];
                     uint32_t bs = bs_arr[curr_symbol];
 
-                    array[index] = SSTPair{.ls=ls, .bs=bs};
+                    array[residue_offset + index] = SSTPair{.ls=ls, .bs=bs};
                 }
             }
         }
-- 
2.43.0


From d0d56866266e4500c559f33795de1ec9136dbb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:02 +0000
Subject: [PATCH 46/48] fix: a closed archive refuses every operation

---
 src/hzip_storage/archive/archive.cpp | 27 +++++++++++++++++++++++++++
 src/hzip_storage/archive/archive.h   |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 55cb596..2c58c4d 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -62,8 +62,16 @@ void HZ_Archive::hza_unlock() {
     }
 }
 
+void HZ_Archive::hza_check_open() const {
+    // The file of a closed archive may belong to somebody else by now.
+    if (!is_open) {
+        throw ArchiveErrors::InvalidOperationException("archive is closed");
+    }
+}
+
 void HZ_Archive::hza_scan() {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -557,6 +565,7 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     hza_install_mstate(_path, mstate);
 }
 
@@ -565,6 +574,7 @@ void HZ_Archive::replace_mstate(const std::string &_path, const rainman::ptr<HZ_
 
     // One step, nobody may find or use the path in between.
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (metadata.mstate_aux_map.contains(_path)) {
         hza_uninstall_mstate(_path);
     }
@@ -677,6 +687,7 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     hz_validate_path(file_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
@@ -703,6 +714,7 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
@@ -734,6 +746,7 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
@@ -754,6 +767,7 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     hza_uninstall_mstate(_path);
 }
 
@@ -783,6 +797,7 @@ void HZ_Archive::hza_uninstall_mstate(const std::string &_path) {
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
@@ -792,6 +807,7 @@ void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_B
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::MstateNotFoundException(0);
@@ -804,6 +820,7 @@ void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_B
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     uint64_t id = hza_write_mstate(mstate);
 
     return id;
@@ -811,6 +828,7 @@ uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     if (metadata.mstate_inv_aux_map.contains(id)) {
         throw ArchiveErrors::InvalidOperationException("mstate is bound to a path");
@@ -845,11 +863,13 @@ void HZ_Archive::load() {
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     hza_create_metadata_file_entry(file_path, file);
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     uint64_t id = hza_write_blob(*blob);
 
     return id;
@@ -857,6 +877,7 @@ uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     bool v = metadata.file_map.contains(file_path);
 
     return v;
@@ -864,6 +885,7 @@ bool HZ_Archive::check_file_exists(const std::string &file_path) {
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
 
     return file;
@@ -871,6 +893,7 @@ HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     auto blob = hza_read_blob(id);
 
     return blob;
@@ -878,6 +901,7 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
@@ -890,6 +914,7 @@ rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     bool exists = metadata.mstate_aux_map.contains(_path);
 
     return exists;
@@ -904,6 +929,7 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     auto list = metadata.file_map.children(prefix);
 
     return list;
@@ -911,6 +937,7 @@ std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::s
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     auto list = metadata.mstate_aux_map.children(prefix);
 
     return list;
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index 63d93fa..ab1ed42 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -84,6 +84,8 @@ private:
 
     void hza_unlock();
 
+    void hza_check_open() const;
+
     void hza_scan();
 
     void hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
-- 
2.43.0


From f47133328e725af39a4986137cedbd6402c18f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:02 +0000
Subject: [PATCH 47/48] fix: no archive is opened after the archive provider
 was closed

---
 src/hzip_network/api/providers/archive_provider.cpp | 8 ++++++++
 src/hzip_network/api/providers/archive_provider.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 8775843..9b38431 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,9 +1,15 @@
 #include "archive_provider.h"
 #include <filesystem>
+#include <hzip_network/errors/api.h>
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
     std::scoped_lock<std::mutex> lock(mutex);
 
+    // Nobody would close an archive that is opened now.
+    if (is_closed) {
+        throw ApiErrors::InvalidOperationError("Archive provider is closed");
+    }
+
     // Every spelling of a path refers to the same archive.
     std::string key = std::filesystem::weakly_canonical(std::filesystem::absolute(path));
 
@@ -22,6 +28,8 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
 void hzapi::ArchiveProvider::close() {
     std::scoped_lock<std::mutex> lock(mutex);
 
+    is_closed = true;
+
     for (auto &entry : arch_map) {
         entry.second->close();
     }
diff --git a/src/hzip_network/api/providers/archive_provider.h b/src/hzip_network/api/providers/archive_provider.h
index c625797..d09f2ab 100644
--- a/src/hzip_network/api/providers/archive_provider.h
+++ b/src/hzip_network/api/providers/archive_provider.h
@@ -10,6 +10,7 @@ namespace hzapi {
     private:
         std::unordered_map<std::string, rainman::ptr<HZ_Archive>> arch_map;
         std::mutex mutex;
+        bool is_closed = false;
     public:
         rainman::ptr<HZ_Archive> provide(const std::string &path);
 
-- 
2.43.0


From df64f2e3505552cca5998313f06993d56d07da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:51 +0000
Subject: [PATCH 48/48] fix: a signal shuts the program down on a thread that
 holds no lock

---
 src/main.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index d34df13..6fefa36 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,4 +1,5 @@
 #include <csignal>
+#include <thread>
 #include <loguru/loguru.hpp>
 #include <rainman/rainman.h>
 #include <hzip_network/api/api.h>
@@ -19,6 +20,15 @@ void set_unhandled_exception_handler() {
     });
 }
 
+// The signals that ask the program to end, for pthread_sigmask() and sigwait().
+sigset_t termination_signals() {
+    sigset_t signals;
+    sigemptyset(&signals);
+    sigaddset(&signals, SIGINT);
+    sigaddset(&signals, SIGTERM);
+    return signals;
+}
+
 void set_signal_handlers() {
     auto signal_handler = [](int signum) {
         LOG_F(ERROR, "hybridzip: Signal captured: %s", strsignal(signum));
@@ -31,15 +41,25 @@ void set_signal_handlers() {
         LOG_F(WARNING, "hybridzip: Ignoring signal: %s", strsignal(signum));
     };
 
-    signal(SIGINT, signal_handler);
     signal(SIGSEGV, signal_handler);
-    signal(SIGTERM, signal_handler);
     signal(SIGABRT, signal_handler);
     signal(SIGFPE, signal_handler);
     signal(SIGPIPE, signal_ignore);
+
+    // Shutting down takes locks, which the thread that a handler interrupts may hold.
+    std::thread([signal_handler]() {
+        auto signals = termination_signals();
+        int signum;
+        while (sigwait(&signals, &signum) != 0) {}
+        signal_handler(signum);
+    }).detach();
 }
 
 int main(int argc, const char **argv) {
+    // Every thread inherits this.
+    auto signals = termination_signals();
+    pthread_sigmask(SIG_BLOCK, &signals, nullptr);
+
     setup_logger();
     set_unhandled_exception_handler();
 
-- 
2.43.0

