From 9abd01813d97087a0520d328d4ec009c33ac2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 01/20] fix: replace instead of merge when deserializing
 containers in place

Maps, sets, queues, and lists/deques/vectors whose elements cannot be
copied kept the elements the target already had and appended to them.
---
 src/checkpoint/container/list_serialize.h   | 3 +++
 src/checkpoint/container/map_serialize.h    | 3 +++
 src/checkpoint/container/queue_serialize.h  | 3 +++
 src/checkpoint/container/vector_serialize.h | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..9fab049 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -86,6 +86,9 @@ deserializeOrderedElems(
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
+  // Drop previous contents when deserializing in place
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..5b61ff5 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -67,6 +67,9 @@ inline typename std::enable_if_t<
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
+  // Drop previous contents when deserializing in place
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..703ca54 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -56,6 +56,9 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
+  // Drop previous contents when deserializing in place
+  q = std::queue<T>{};
+
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..898d613 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -99,6 +99,9 @@ void constructVectorData(
   using Reconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
+  // Drop previous contents when deserializing in place
+  vec.clear();
+
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
-- 
2.43.0


From 9b4f96148f0a6e5931047a20bc1f076f340abd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 02/20] fix: destroy temporaries built while unpacking
 containers

The element, key or value reconstructed on a scratch buffer was never
destroyed, leaking whatever it owned.
---
 src/checkpoint/container/list_serialize.h     |  8 ++++++--
 src/checkpoint/container/map_serialize.h      |  4 +++-
 src/checkpoint/container/optional_serialize.h |  4 +++-
 src/checkpoint/container/queue_serialize.h    |  4 +++-
 src/checkpoint/container/variant_serialize.h  |  4 +++-
 src/checkpoint/container/vector_serialize.h   |  8 ++++++--
 src/checkpoint/dispatch/allocator.h           | 12 ++++++++++++
 7 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 9fab049..a553a9e 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -67,7 +67,9 @@ deserializeOrderedElems(
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::Temporary<typename dispatch::CleanType<ElmT>::CleanT> reconstructed{
+    Reconstructor::construct(allocated.buf)
+  };
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -91,7 +93,9 @@ deserializeOrderedElems(
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<typename dispatch::CleanType<ElmT>::CleanT> reconstructed{
+      Reconstructor::construct(allocated.buf)
+    };
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 5b61ff5..1d602bf 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -72,7 +72,9 @@ inline typename std::enable_if_t<
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<typename dispatch::CleanType<ElmT>::CleanT> reconstructed{
+      Reconstructor::construct(allocated.buf)
+    };
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..29574a9 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -63,7 +63,9 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
   auto* has_value = BoolReconstructor::construct(boolAllocated.buf);
   s | *has_value;
   if (*has_value) {
-    auto* value = ValReconstructor::construct(valAllocated.buf);
+    dispatch::Temporary<typename dispatch::CleanType<T>::CleanT> value{
+      ValReconstructor::construct(valAllocated.buf)
+    };
     s | *value;
     optional = *value;
   } else {
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 703ca54..bd0d44b 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -61,7 +61,9 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
 
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<typename dispatch::CleanType<T>::CleanT> reconstructed{
+      Reconstructor::construct(allocated.buf)
+    };
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..b80d556 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -68,7 +68,9 @@ struct SerializeEntry<Arg, Args...> {
         using Reconstructor =
           dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
         Alloc allocated;
-        auto* reconstructed = Reconstructor::construct(allocated.buf);
+        dispatch::Temporary<typename dispatch::CleanType<Arg>::CleanT> reconstructed{
+          Reconstructor::construct(allocated.buf)
+        };
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 898d613..5879bc1 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -86,7 +86,9 @@ void constructVectorData(
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::Temporary<typename dispatch::CleanType<T>::CleanT> reconstructed{
+    Reconstructor::construct(allocated.buf)
+  };
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -104,7 +106,9 @@ void constructVectorData(
 
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Temporary<typename dispatch::CleanType<T>::CleanT> reconstructed{
+      Reconstructor::construct(allocated.buf)
+    };
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..3a82da0 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -58,6 +58,18 @@ struct Allocator {
   SerialByteType* buf;
 };
 
+/**
+ * \brief Destroys a temporary reconstructed on an \c Allocator buffer, without
+ * releasing the buffer
+ */
+struct TemporaryDeleter {
+  template <typename T>
+  void operator()(T* t) const { t->~T(); }
+};
+
+template <typename T>
+using Temporary = std::unique_ptr<T, TemporaryDeleter>;
+
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
-- 
2.43.0


From b94a13eea994f898df129843893490e8073ab5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 03/20] fix: release the object, not the user's memory, when
 decoding fails

deserialize() into a user-provided object buffer deleted that buffer when
decoding threw; decoding from a file or stream leaked the new object.
---
 src/checkpoint/checkpoint_api.impl.h    | 18 +++++++-------
 src/checkpoint/dispatch/dispatch.h      |  9 +++++++
 src/checkpoint/dispatch/dispatch.impl.h | 31 ++++++++++++++++++++-----
 3 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..53212c3 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -108,12 +108,11 @@ void serializeToFile(T& target, std::string const& file) {
 
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
+  auto t = dispatch::Standard::allocateAndConstruct<T>();
+  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
+    t.get(), buffer::IOBuffer::ReadFromFileTag{}, file
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T>
@@ -133,12 +132,11 @@ void serializeToStream(T& target, StreamT& stream) {
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t_buf, stream
+  auto t = dispatch::Standard::allocateAndConstruct<T>();
+  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+    t.get(), stream
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/dispatch/dispatch.h b/src/checkpoint/dispatch/dispatch.h
index e5c6da1..b897df2 100644
--- a/src/checkpoint/dispatch/dispatch.h
+++ b/src/checkpoint/dispatch/dispatch.h
@@ -52,6 +52,7 @@
 #include "checkpoint/dispatch/reconstructor.h"
 
 #include <functional>
+#include <memory>
 
 #include <tuple>
 
@@ -186,6 +187,14 @@ struct Standard {
    */
   template <typename T>
   static SerialByteType* allocate();
+
+  /**
+   * \brief Allocate memory for \c T and construct it there
+   *
+   * \return owning pointer to the constructed \c T
+   */
+  template <typename T>
+  static std::unique_ptr<T> allocateAndConstruct();
 };
 
 template <typename T>
diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..c91acba 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -215,6 +215,17 @@ SerialByteType* Standard::allocate() {
   return reinterpret_cast<SerialByteType*>(std::allocator<T>{}.allocate(1));
 }
 
+template <typename T>
+std::unique_ptr<T> Standard::allocateAndConstruct() {
+  auto mem = allocate<T>();
+  try {
+    return std::unique_ptr<T>(construct<T>(mem));
+  } catch (...) {
+    std::allocator<T>{}.deallocate(reinterpret_cast<T*>(mem), 1);
+    throw;
+  }
+}
+
 template <typename T, typename UnpackerT, typename... Args>
 T* Standard::unpack(T* t_buf, Args&&... args) {
   Traverse::with<T, UnpackerT>(*t_buf, std::forward<Args>(args)...);
@@ -274,12 +285,20 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
 
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
-  auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
-  T* traverser =
-    Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
-  t_buf.release();
-  return traverser;
+  if (allocBuf != nullptr) {
+    // The memory belongs to the user: on failure, only end the object's lifetime
+    T* t = Standard::construct<T>(allocBuf);
+    try {
+      return Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t, data);
+    } catch (...) {
+      t->~T();
+      throw;
+    }
+  }
+
+  auto t_buf = Standard::allocateAndConstruct<T>();
+  Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
+  return t_buf.release();
 }
 
 template <typename T>
-- 
2.43.0


From df0ef89ba7b6f5ef15788fc0d038d0191bbcf6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 04/20] fix: serialize every element of an array of virtually
 serializable objects

Only the first element of a contiguous array (e.g. std::vector<T>) was
visited; the others came back default constructed.
---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..c8ac236 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        T* elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From 462bfa7ba3727d5c0c823664c7fa1587962cb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 05/20] fix: detect sizing/packing mismatches before they
 overflow the buffer

Packing more than was sized wrote past the end of the buffer before the
mismatch was reported, and files and streams were not checked at all.
---
 src/checkpoint/checkpoint_api.impl.h           | 6 ++++--
 src/checkpoint/serializers/packer.impl.h       | 8 ++++++--
 src/checkpoint/serializers/stream_serializer.h | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 53212c3..994a579 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -101,9 +101,10 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
 }
 
 template <typename T>
@@ -125,9 +126,10 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  auto p = dispatch::Standard::pack<T, StreamPacker<StreamT>>(
     target, len, stream
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/serializers/packer.impl.h b/src/checkpoint/serializers/packer.impl.h
index 8754cb6..81dc347 100644
--- a/src/checkpoint/serializers/packer.impl.h
+++ b/src/checkpoint/serializers/packer.impl.h
@@ -119,6 +119,12 @@ void PackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+  usedSize_ += len;
+  if (usedSize_ > size_) {
+    // More than was sized: only count it, the mismatch is reported after packing
+    return;
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   #pragma GCC diagnostic push
 #if !defined(__has_warning)
@@ -128,8 +134,6 @@ void PackerBuffer<BufferT>::contiguousBytes(
 #endif
   std::memcpy(spot, ptr, len);
   #pragma GCC diagnostic pop
-
-  usedSize_ += len;
 }
 
 template <typename BufferT>
diff --git a/src/checkpoint/serializers/stream_serializer.h b/src/checkpoint/serializers/stream_serializer.h
index 2974009..7b8ed08 100644
--- a/src/checkpoint/serializers/stream_serializer.h
+++ b/src/checkpoint/serializers/stream_serializer.h
@@ -64,7 +64,7 @@ struct StreamPacker : BaseSerializer {
     n_bytes += size*num_elms;
   }
 
-  SerialSizeType usedBufferSize() {
+  SerialSizeType usedBufferSize() const {
     return n_bytes;
   }
 
@@ -85,7 +85,7 @@ struct StreamUnpacker : BaseSerializer {
     n_bytes += size*num_elms;
   }
 
-  SerialSizeType usedBufferSize() {
+  SerialSizeType usedBufferSize() const {
     return n_bytes;
   }
 
-- 
2.43.0


From 34e9d60e248df8cee7517c847d3457b7cea5bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 06/20] fix: report truncated files instead of reading past
 their end

Decoding a truncated file read beyond the mapping: zeros up to the page
end, then SIGBUS.
---
 src/checkpoint/serializers/unpacker.impl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/checkpoint/serializers/unpacker.impl.h b/src/checkpoint/serializers/unpacker.impl.h
index ad2429b..7294e01 100644
--- a/src/checkpoint/serializers/unpacker.impl.h
+++ b/src/checkpoint/serializers/unpacker.impl.h
@@ -50,6 +50,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 
 namespace checkpoint {
 
@@ -92,6 +93,13 @@ void UnpackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // The size is not known (zero) when unpacking from a bare pointer
+  auto const buffer_size = buffer_->getSize();
+  if (buffer_size != 0 and len > buffer_size - usedSize_) {
+    throw std::runtime_error("Buffer does not hold the required number of bytes!");
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   std::memcpy(ptr, spot, len);
 
-- 
2.43.0


From 29ca637f37d8d0df6f28fb45dd2d8df790293c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 07/20] fix: report file flush and close failures instead of
 terminating

The I/O buffer's destructor threw, which terminates the program, and a
failing step leaked the descriptor and the mapping.
---
 src/checkpoint/buffer/io_buffer.cc   | 55 +++++++++++++++++-----------
 src/checkpoint/buffer/io_buffer.h    | 15 +++++++-
 src/checkpoint/checkpoint_api.impl.h |  1 +
 3 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..16574e8 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,12 +218,21 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    // The destructor will not run: only the descriptor can be open at this point
+    if (fd_ != -1) {
+      close(fd_);
+      fd_ = -1;
+    }
+    throw;
   }
 }
 
@@ -239,6 +248,15 @@ void IOBuffer::closeFile() {
 
   int ret = 0;
 
+  // Remember the first failure, but release everything before reporting it
+  std::string err;
+  auto fail = [&err](char const* what) {
+    if (err.empty()) {
+      err = std::string(what) + ": errno=" + std::to_string(errno) + ": " +
+            strerror(errno);
+    }
+  };
+
   /*
    * msync/msync64 the mapped file causing the file to be written out
    */
@@ -249,18 +267,14 @@ void IOBuffer::closeFile() {
     ret = msync64(addr, size_, MS_SYNC);
 
     if (ret != 0) {
-      auto err = std::string("msync64 failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      fail("msync64 failed on file after write");
     }
 
 #   else
     ret = msync(addr, size_, MS_SYNC);
 
     if (ret != 0) {
-      auto err = std::string("msync failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      fail("msync failed on file after write");
     }
 #   endif
   }
@@ -274,18 +288,14 @@ void IOBuffer::closeFile() {
   ret = munmap64(addr, size_);
 
   if (ret != 0) {
-    auto err = std::string("munmap64 failed on after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fail("munmap64 failed on after write");
   }
 
 # else
   ret = munmap(addr, size_);
 
   if (ret != 0) {
-    auto err = std::string("munmap failed on file after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fail("munmap failed on file after write");
   }
 # endif
 
@@ -297,12 +307,15 @@ void IOBuffer::closeFile() {
   ret = close(fd_);
 
   if (ret != 0) {
-    auto err = std::string("close on file descriptor failed: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fail("close on file descriptor failed");
   }
 
   fd_ = -1;
+  buffer_ = nullptr;
+
+  if (not err.empty()) {
+    throw std::runtime_error(err);
+  }
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..f0adb91 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -79,13 +79,24 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  /**
+   * \brief Flush (when writing), unmap and close the file
+   *
+   * Everything is released even if a step fails.
+   *
+   * \throws std::runtime_error for the first step that failed
+   */
+  void closeFile();
+
+  virtual ~IOBuffer() {
+    // Failures can only be reported by an explicit closeFile()
+    try { closeFile(); } catch (...) { }
+  }
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 994a579..b8b13f3 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -105,6 +105,7 @@ void serializeToFile(T& target, std::string const& file) {
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
   dispatch::validatePackerBufferSize<T>(p, len);
+  p.extractPackedBuffer()->closeFile();
 }
 
 template <typename T>
-- 
2.43.0


From 4b1175fa5583c2b76d0b5c113e5bf5824ce4ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 08/20] fix: do not register unknown type indices while
 reporting a mismatch

Looking up the name of a corrupt index inserted it in the process-wide
table, growing it and racing with other threads.
---
 src/checkpoint/dispatch/type_registry.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..0b03cd6 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -124,7 +124,10 @@ inline DecodedIndex getTypeIdx() {
 }
 
 inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+  static std::string const unknown = "unknown type";
+  auto const& names = getRegisteredNames();
+  auto const iter = names.find(typeIdx);
+  return iter != names.end() ? iter->second : unknown;
 }
 
 template <typename ObjT>
-- 
2.43.0


From 6ef2bd65b8316206c7a5ec235e2f45cd64071225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 09/20] fix: apply the documented reconstruction order to
 vector elements

Vector elements with both a default and a tagged constructor (or
reconstruct) were default constructed, unlike in every other container.
---
 src/checkpoint/container/vector_serialize.h  |  6 +++---
 src/checkpoint/traits/reconstructor_traits.h | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 5879bc1..e9aced0 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -71,7 +71,7 @@ serializeVectorMeta(SerializerT& s, std::vector<T, VectorAllocator>& vec) {
 template <typename T, typename VectorAllocator>
 void constructVectorData(
   SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
-  isDefaultConsType<T>* = nullptr
+  isPlainDefaultConsType<T>* = nullptr
 ) {
   vec.resize(vec_size);
 }
@@ -79,7 +79,7 @@ void constructVectorData(
 template <typename T, typename VectorAllocator>
 void constructVectorData(
   SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
-  isNotDefaultConsType<T>* = nullptr, isCopyConstructible<T>* = nullptr
+  isNotPlainDefaultConsType<T>* = nullptr, isCopyConstructible<T>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<T>;
   using Reconstructor =
@@ -95,7 +95,7 @@ void constructVectorData(
 template <typename T, typename VectorAllocator>
 void constructVectorData(
   SerialSizeType const vec_size, std::vector<T, VectorAllocator>& vec,
-  isNotDefaultConsType<T>* = nullptr, isNotCopyConstructible<T>* = nullptr
+  isNotPlainDefaultConsType<T>* = nullptr, isNotCopyConstructible<T>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<T>;
   using Reconstructor =
diff --git a/src/checkpoint/traits/reconstructor_traits.h b/src/checkpoint/traits/reconstructor_traits.h
index 6551cb9..b0559b9 100644
--- a/src/checkpoint/traits/reconstructor_traits.h
+++ b/src/checkpoint/traits/reconstructor_traits.h
@@ -58,6 +58,20 @@ template <typename T>
 using isNotDefaultConsType =
   std::enable_if_t<not std::is_default_constructible<T>::value>;
 
+/// Default construction is what the reconstruction precedence selects
+template <typename T>
+static constexpr bool const is_plain_default_cons_v =
+  std::is_default_constructible<T>::value and
+  not SerializableTraits<T, void>::is_tagged_constructible and
+  not SerializableTraits<T, void>::is_reconstructible;
+
+template <typename T>
+using isPlainDefaultConsType = std::enable_if_t<is_plain_default_cons_v<T>>;
+
+template <typename T>
+using isNotPlainDefaultConsType =
+  std::enable_if_t<not is_plain_default_cons_v<T>>;
+
 template <typename T>
 using isReconstructibleType =
   std::enable_if_t<SerializableTraits<T, void>::is_intrusive_reconstructible>;
-- 
2.43.0


From 2aebb5f45e2ac8a70846c3bf96ac45ffe4a26ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 10/20] fix: move a deserialized optional's value instead of
 copying it

The copy lost the capacity of vectors inside and required copyable types.
---
 src/checkpoint/container/optional_serialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index 29574a9..afc61ba 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -67,7 +67,7 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
       ValReconstructor::construct(valAllocated.buf)
     };
     s | *value;
-    optional = *value;
+    optional = std::move(*value);
   } else {
     optional.reset();
   }
-- 
2.43.0


From c05152072242bf521b8cdc66ad3de3efa94b0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:40 +0000
Subject: [PATCH 11/20] fix: report an exceeded quota when allocating a file's
 space

Ignoring it led to a fatal signal when the mapped file was written.
---
 src/checkpoint/buffer/io_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 16574e8..ab929b2 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -149,7 +149,7 @@ void IOBuffer::setupForWrite() {
 
   ret = fallocate(fd_, 0, 0, size_);
 
-  if (ret != 0 and errno == ENOSPC) {
+  if (ret != 0 and (errno == ENOSPC or errno == EDQUOT)) {
     auto err = std::string("fallocate failed on file: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
     throw std::runtime_error(err);
-- 
2.43.0


From 12998d783a29613b2235797f59d72d2b4d8ea727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 12/20] fix: destroy the constructed elements of a tuple when
 another one fails

---
 src/checkpoint/container/tuple_serialize.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/container/tuple_serialize.h b/src/checkpoint/container/tuple_serialize.h
index 5efe06e..37a23f3 100644
--- a/src/checkpoint/container/tuple_serialize.h
+++ b/src/checkpoint/container/tuple_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_TUPLE_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/dispatch/allocator.h"
 #include "checkpoint/serializers/serializers_headers.h"
 
 #include <tuple>
@@ -62,9 +63,13 @@ void tuple_helper(Serializer& s, std::tuple<T...>& tup, std::index_sequence<Idxs
 
 template <typename... T, size_t... Idxs>
 void tuple_helper_reconstruct(std::tuple<T...>*& tup, std::index_sequence<Idxs...>) {
-  std::forward_as_tuple(
-    (dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup)))...
-  );
+  // Own the elements until all of them are constructed, in case one fails
+  std::tuple<dispatch::Temporary<T>...> elements{
+    dispatch::Temporary<T>{
+      dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup))
+    }...
+  };
+  (static_cast<void>(std::get<Idxs>(elements).release()), ...);
 }
 
 template <typename Serializer, typename... Args>
-- 
2.43.0


From 4fda3c59376906701f47b6e5d4cedd53fe9e50c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 13/20] fix: create the members of a pair with the documented
 strategies

---
 src/checkpoint/container/tuple_serialize.h | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/checkpoint/container/tuple_serialize.h b/src/checkpoint/container/tuple_serialize.h
index 37a23f3..afea62b 100644
--- a/src/checkpoint/container/tuple_serialize.h
+++ b/src/checkpoint/container/tuple_serialize.h
@@ -84,6 +84,31 @@ void serialize(Serializer& s, std::pair<T, U>& pair) {
   s | pair.second;
 }
 
+/**
+ * \brief Reconstruct a pair member by member, so that each one is created with
+ * the strategy its type offers
+ */
+template <typename T, typename U>
+struct CheckpointReconstructor<std::pair<T, U>> {
+  static void reconstruct(std::pair<T, U>*& pair, void* buf) {
+    using PairType = std::pair<T, U>;
+    using FirstType = typename dispatch::CleanType<T>::CleanT;
+    using SecondType = typename dispatch::CleanType<U>::CleanT;
+
+    pair = std::launder<PairType>(reinterpret_cast<PairType*>(buf));
+
+    dispatch::Temporary<FirstType> first{
+      dispatch::Reconstructor<FirstType>::construct(
+        dispatch::cleanType(&pair->first)
+      )
+    };
+    dispatch::Reconstructor<SecondType>::construct(
+      dispatch::cleanType(&pair->second)
+    );
+    first.release();
+  }
+};
+
 template <typename... Args>
 struct CheckpointReconstructor<std::tuple<Args...>> {
   static void reconstruct(std::tuple<Args...>*& tuple, void* buf) {
-- 
2.43.0


From 8ce89af1c2ab6a75f8e4a6054055d0f25199a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 14/20] fix: release the memory of a pointee whose construction
 fails

---
 src/checkpoint/dispatch/vrt/object_registry.h  | 17 +++++++++++++----
 .../dispatch/vrt/virtual_serialize.h           | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/object_registry.h b/src/checkpoint/dispatch/vrt/object_registry.h
index 54da0de..daa8ffc 100644
--- a/src/checkpoint/dispatch/vrt/object_registry.h
+++ b/src/checkpoint/dispatch/vrt/object_registry.h
@@ -58,22 +58,25 @@ namespace objregistry {
 template <typename T>
 struct ObjectEntry {
 
-  template <typename Allocator, typename Constructor>
+  template <typename Allocator, typename Constructor, typename Deallocator>
   ObjectEntry(
     TypeIdx in_idx,
     std::size_t in_size,
     Allocator&& in_allocator,
-    Constructor&& in_constructor
+    Constructor&& in_constructor,
+    Deallocator&& in_deallocator
   ) : idx_(in_idx),
       size_(in_size),
       allocator_(in_allocator),
-      constructor_(in_constructor)
+      constructor_(in_constructor),
+      deallocator_(in_deallocator)
   { }
 
   TypeIdx idx_ = no_type_idx;              /**< The type index for this ObjT */
   std::size_t size_ = 0;                   /**< The registered object size */
   std::function<void*(void)> allocator_;   /**< Do standard allocation for object */
   std::function<T*(void*)> constructor_;   /**< Construct object on memory */
+  std::function<void(void*)> deallocator_; /**< Release memory without object */
 };
 
 template <typename T>
@@ -110,7 +113,8 @@ Registrar<ObjT>::Registrar() {
       index,
       sizeof(ObjT),
       []()          -> void*       { return std::allocator<ObjT>{}.allocate(1); },
-      [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); }
+      [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); },
+      [](void* buf) -> void        { std::allocator<ObjT>{}.deallocate(static_cast<ObjT*>(buf), 1); }
     }
   );
 }
@@ -134,6 +138,11 @@ inline auto allocateConcreteType(TypeIdx han) {
   return getRegistry<T>().at(han).allocator_();
 }
 
+template <typename T>
+inline void deallocateConcreteType(TypeIdx han, void* buf) {
+  getRegistry<T>().at(han).deallocator_(buf);
+}
+
 template <typename T>
 inline auto constructConcreteType(TypeIdx han, void* buf) {
   return getRegistry<T>().at(han).constructor_(buf);
diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 2082dd4..016c46f 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -152,7 +152,12 @@ struct ReconstructAsVirtualIfNeeded<
   static T* apply(SerializerT&, dispatch::vrt::TypeIdx) {
     // no type idx needed in this case, static construction in default case
     auto t = std::allocator<T>{}.allocate(1);
-    return dispatch::Reconstructor<T>::construct(t);
+    try {
+      return dispatch::Reconstructor<T>::construct(t);
+    } catch (...) {
+      std::allocator<T>{}.deallocate(t, 1);
+      throw;
+    }
   }
 };
 
@@ -181,9 +186,14 @@ struct ReconstructAsVirtualIfNeeded<
 
     // use type idx here, registration needed for proper type re-construction
     auto t = dispatch::vrt::objregistry::allocateConcreteType<BaseT>(entry);
-    return static_cast<T*>(
-                           dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
-                           );
+    try {
+      return static_cast<T*>(
+        dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
+      );
+    } catch (...) {
+      dispatch::vrt::objregistry::deallocateConcreteType<BaseT>(entry, t);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From a1925602d22f0bdf8bef9f0590e28e9d1e50e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 15/20] fix: link a derived type to its base without a data
 race between threads

---
 src/checkpoint/dispatch/vrt/serializer_registry.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/vrt/serializer_registry.h b/src/checkpoint/dispatch/vrt/serializer_registry.h
index 9ec3860..96c621d 100644
--- a/src/checkpoint/dispatch/vrt/serializer_registry.h
+++ b/src/checkpoint/dispatch/vrt/serializer_registry.h
@@ -47,6 +47,7 @@
 #include "checkpoint/common.h"
 #include "checkpoint/dispatch/vrt/registry_common.h"
 
+#include <atomic>
 #include <functional>
 #include <vector>
 #include <tuple>
@@ -67,8 +68,16 @@ struct SerializerEntry {
       serializer_(in_serializer)
   { }
 
+  SerializerEntry(SerializerEntry const& other)
+    : this_idx_(other.this_idx_),
+      base_idx_(other.base_idx_.load()),
+      serializer_(other.serializer_)
+  { }
+
   TypeIdx this_idx_ = no_type_idx;            /**< This entry type idx */
-  TypeIdx base_idx_ = no_type_idx;            /**< The base class type idx */
+  /// The base class type idx; atomic as it is linked whenever an object is
+  /// serialized, which several threads might do at the same time
+  std::atomic<TypeIdx> base_idx_ = {no_type_idx};
   std::function<void(void*, T&)> serializer_; /**< Type-erased serialize dispatch */
 };
 
-- 
2.43.0


From 045d39071c7f88d4feeee935a63347c1942e5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 16/20] fix: note the first simplified footprint without a data
 race between threads

---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index c8ac236..b899cad 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -49,6 +49,7 @@
 #include "checkpoint/dispatch/vrt/virtual_serialize_traits.h"
 #include "checkpoint/dispatch/vrt/virtual_serialize.h"
 
+#include <atomic>
 #include <type_traits>
 #include <tuple>
 #include <cstdlib>
@@ -158,9 +159,8 @@ struct SerializerDispatchNonByte {
       static_cast<void*>(&val),
       typeid(val).name()
     );
-    static bool firstCall = true;
-    if (firstCall) {
-      firstCall = false;
+    static std::atomic<bool> firstCall = {true};
+    if (firstCall.exchange(false)) {
       debug_checkpoint(
         "SerializerDispatch: warning: simplified footprinting in use!\n"
         "Objects of type: typeid=%s will not be traversed\n",
-- 
2.43.0


From 662d0494f2e1e981c9b87623efc57a166e43b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 17/20] fix: serialize only the occupied slots of a Kokkos
 unordered map

---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index 8118345..e4e2935 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -68,9 +68,10 @@ void serializeKokkosUnorderedMapElems(
     typename Kokkos::UnorderedMap<Key, Value, Device, Hasher, EqualTo>::size_type;
 
   for (mapSizeType i = 0; i < map.capacity(); i++) {
-    Key keyAtI = map.key_at(i);
-    if (map.exists(keyAtI)) {
-      Value val = map.value_at(map.find(keyAtI));
+    // An unused slot holds a default or stale key, which may well be in the map
+    if (map.valid_at(i)) {
+      Key keyAtI = map.key_at(i);
+      Value val = map.value_at(i);
 
       s | keyAtI;
       s | val;
-- 
2.43.0


From b0c312a8d985c057f2f2264f7498a9948f4f593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 18/20] fix: replace instead of merge when deserializing a
 Kokkos unordered map in place

---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index e4e2935..cf1bd3d 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -97,8 +97,9 @@ void deserializeInsertElems(
   using ValReconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<Value>::CleanT>;
 
-  // resize unordered map
-  map.rehash(map_capacity);
+  // Start from an empty map of that capacity, dropping previous contents when
+  // deserializing in place
+  map = Kokkos::UnorderedMap<Key, Value, Device, Hasher, EqualTo>(map_capacity);
 
   KeyAlloc keyAllocated;
   ValueAlloc valAllocated;
-- 
2.43.0


From 3fdfcb64a04e3f4082898f6cfe04ba4a0900e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:22 +0000
Subject: [PATCH 19/20] fix: destroy the temporary keys and values of a Kokkos
 unordered map

---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index cf1bd3d..896512e 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -104,8 +104,12 @@ void deserializeInsertElems(
   KeyAlloc keyAllocated;
   ValueAlloc valAllocated;
   for (SerialSizeType i = 0; i < map_size; i++) {
-    auto* key = KeyReconstructor::construct(keyAllocated.buf);
-    auto* val = ValReconstructor::construct(valAllocated.buf);
+    dispatch::Temporary<typename dispatch::CleanType<Key>::CleanT> key{
+      KeyReconstructor::construct(keyAllocated.buf)
+    };
+    dispatch::Temporary<typename dispatch::CleanType<Value>::CleanT> val{
+      ValReconstructor::construct(valAllocated.buf)
+    };
 
     s | *key;
     s | *val;
-- 
2.43.0


From 204d9fa604ca235ded84b7aae6d3491f2d526b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 20/20] fix: serialize polymorphic objects to and from every
 class of standard stream

Virtually serializable types are registered for std::ostream and std::istream
only, so serializing one to a std::ofstream or std::stringstream aborted with
"could not find corresponding entry in derived for base". A stream class that
inherits its write or read function from the standard ones is now used as such.
---
 src/checkpoint/checkpoint_api.impl.h | 38 +++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index b8b13f3..c7da3b6 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -49,10 +49,42 @@
 #include "checkpoint/checkpoint_api.h"
 #include "buffer/buffer.h"
 
+#include <istream>
 #include <memory>
+#include <ostream>
+#include <type_traits>
 
 namespace checkpoint {
 
+namespace detail {
+
+template <typename StreamT>
+using streamWrite_t = decltype(&StreamT::write);
+
+template <typename StreamT>
+using streamRead_t = decltype(&StreamT::read);
+
+/*
+ * Virtually serializable types are registered for the general standard streams
+ * only, so a stream that derives from one, and inherits its functions, is used
+ * as one.
+ */
+template <typename StreamT>
+using OutputStream = std::conditional_t<
+  detection::is_detected_exact<
+    streamWrite_t<std::ostream>, streamWrite_t, StreamT
+  >::value, std::ostream, StreamT
+>;
+
+template <typename StreamT>
+using InputStream = std::conditional_t<
+  detection::is_detected_exact<
+    streamRead_t<std::istream>, streamRead_t, StreamT
+  >::value, std::istream, StreamT
+>;
+
+} /* end namespace detail */
+
 template <typename T>
 SerializedReturnType serialize(T& target, BufferCallbackType fn) {
   auto ret = dispatch::serializeType<T>(target, fn);
@@ -127,7 +159,7 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
   auto len = getSize<T>(target);
-  auto p = dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  auto p = dispatch::Standard::pack<T, StreamPacker<detail::OutputStream<StreamT>>>(
     target, len, stream
   );
   dispatch::validatePackerBufferSize<T>(p, len);
@@ -136,7 +168,7 @@ void serializeToStream(T& target, StreamT& stream) {
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
   auto t = dispatch::Standard::allocateAndConstruct<T>();
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, StreamUnpacker<detail::InputStream<StreamT>>>(
     t.get(), stream
   );
   return t;
@@ -144,7 +176,7 @@ std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
 
 template <typename T, typename StreamT>
 void deserializeInPlaceFromStream(StreamT& stream, T* t) {
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, StreamUnpacker<detail::InputStream<StreamT>>>(
     t, stream
   );
 }
-- 
2.43.0

