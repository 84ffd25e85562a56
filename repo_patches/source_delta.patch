From f3948fc4ac4c9f0c917bdbd566fdca7a4733baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 01/43] fix: a hard checkpoint must not erase the most recent
 soft checkpoint

The first copy of a hard checkpoint is written in the first slot of the pair
that holds the soft checkpoints. When the most recent soft checkpoint was
stored there, a program that stopped before writing the second copy left a
file in which only an older soft checkpoint could be found.
---
 src/joedb/journal/Writable_Journal.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..bc7b33e 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -142,11 +142,26 @@ namespace joedb
 
   file_buffer.flush();
 
+  // The first copy must not erase the most recent soft checkpoint
+  const int64_t neg = -checkpoint_position;
+  const bool move_soft =
+   soft_index == 0 && checkpoint_position > hard_checkpoint_position;
+
   hard_index ^= 1;
   hard_checkpoint_position = checkpoint_position = position;
 
   Head_Exclusive_Lock lock(file);
 
+  if (move_soft)
+  {
+   file.pwrite
+   (
+    reinterpret_cast<const char *>(&neg),
+    sizeof(neg),
+    int64_t(sizeof(neg)) * (2 * hard_index + 1)
+   );
+  }
+
   file.pwrite
   (
    reinterpret_cast<const char *>(&checkpoint_position),
-- 
2.43.0


From c2a7b352ba66499b71124dbe440b92597f244547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:36 +0000
Subject: [PATCH 02/43] fix: interpreted tables reset deleted rows

A row inserted at the id of a deleted row kept the field values of the deleted
row in the interpreted database, whereas the compiled database gives default
values.
---
 src/joedb/interpreted/Field.h   | 18 ++++++++++++++++++
 src/joedb/interpreted/Table.cpp |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..91aad6b 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -57,6 +57,24 @@ namespace joedb
     }
    }
 
+   void reset(Record_Id record_id, size_t size)
+   {
+    switch (type.get_type_id())
+    {
+     case Type::Type_Id::null: break;
+     #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
+     case Type::Type_Id::type_id:\
+      std::fill_n\
+      (\
+       std::get<std::vector<cpp_type>>(column).begin() + to_underlying(record_id),\
+       size,\
+       cpp_type()\
+      );\
+     break;
+     #include "joedb/TYPE_MACRO.h"
+    }
+   }
+
    #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
    return_type get_##type_id(Record_Id record_id) const\
    {\
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..d1ff50f 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -61,6 +61,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used(record_id));
+  for (auto &field: fields)
+   field.second.reset(record_id, 1);
   freedom.free(record_id);
  }
 
@@ -88,6 +90,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used_vector(record_id, size));
+  for (auto &field: fields)
+   field.second.reset(record_id, size);
   freedom.free_vector(record_id, size);
  }
 }
-- 
2.43.0


From 293183bc5eb67aea17bf6c208dd9a7390b36ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 03/43] fix: get the size of a file after locking it

When the size was read before waiting for the lock, another client could make
the file longer in between. Its checkpoint was then considered to be beyond
the end of the file.
---
 .../journal/Journal_Construction_Lock.cpp     | 24 ++++++++++++-------
 src/joedb/journal/Journal_Construction_Lock.h |  2 ++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..22459f8 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,8 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ int64_t Journal_Construction_Lock::lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -21,6 +14,21 @@ namespace joedb
     file.exclusive_lock_tail();
    file.exclusive_lock_head();
   }
+
+  return file.get_size();
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(file),
+  recovery(recovery),
+  size(lock_and_get_size(file))
+ {
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/journal/Journal_Construction_Lock.h b/src/joedb/journal/Journal_Construction_Lock.h
index 70aba62..b15f3ad 100644
--- a/src/joedb/journal/Journal_Construction_Lock.h
+++ b/src/joedb/journal/Journal_Construction_Lock.h
@@ -19,6 +19,8 @@ namespace joedb
   friend class Writable_Journal;
 
   private:
+   static int64_t lock_and_get_size(Abstract_File &file);
+
    bool for_writable_journal = false;
    Journal_Construction_Lock &set_for_writable_journal()
    {
-- 
2.43.0


From f481a2e8a1c97a6f6a7ed61d9c2f5172a2fb5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 04/43] fix: overwrite all soft checkpoints beyond the end of
 the file

A file that lost its end in a power failure may hold two soft checkpoints
beyond its end. Recovery::overwrite replaced only one of them, and none if an
uncheckpointed tail remained, so the other one became valid again when the
file grew, without any new checkpoint.
---
 src/joedb/journal/Writable_Journal.cpp | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index bc7b33e..903ed9f 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -58,11 +58,30 @@ namespace joedb
    );
   }
 
-  // overwrite after-the-end-of-file soft checkpoint
-  if (lock.recovery == Recovery::overwrite && checkpoint_position == lock.size)
+  // overwrite after-the-end-of-file soft checkpoints: they must not become
+  // valid again when the file grows
+  std::array<int64_t, 4> pos;
+  if
+  (
+   lock.recovery == Recovery::overwrite &&
+   lock.size > 0 &&
+   file.pread((char *)&pos, sizeof(pos), 0) == sizeof(pos)
+  )
   {
-   checkpoint_position = -1;
-   soft_checkpoint_at(lock.size);
+   const int64_t neg = -checkpoint_position;
+
+   for (size_t i = 0; i < pos.size(); i++)
+   {
+    if (pos[i] < -lock.size)
+    {
+     file.pwrite
+     (
+      reinterpret_cast<const char *>(&neg),
+      sizeof(neg),
+      int64_t(sizeof(neg) * i)
+     );
+    }
+   }
   }
  }
 
-- 
2.43.0


From 4a8c2bf38cc591c87a2358e2a0481c525c832e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 05/43] fix: time string of timestamps that are too large for
 the calendar

---
 src/joedb/ui/get_time_string.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/joedb/ui/get_time_string.cpp b/src/joedb/ui/get_time_string.cpp
index fde31b9..09390f2 100644
--- a/src/joedb/ui/get_time_string.cpp
+++ b/src/joedb/ui/get_time_string.cpp
@@ -8,16 +8,27 @@ namespace joedb
  std::string get_time_string(int64_t timestamp)
  /////////////////////////////////////////////////////////////////////////////
  {
-  constexpr size_t buffer_size = 24;
+  // a year may have up to 11 characters
+  constexpr size_t buffer_size = 32;
   char buffer[buffer_size];
   const time_t stamp = time_t(timestamp);
   struct tm tm;
 #if defined(__unix__)
-  gmtime_r(&stamp, &tm);
+  const bool ok = gmtime_r(&stamp, &tm) != nullptr;
 #else
-  tm = *std::gmtime(&stamp);
+  const std::tm * const p = std::gmtime(&stamp);
+  const bool ok = p != nullptr;
+  if (ok)
+   tm = *p;
 #endif
-  std::strftime(buffer, buffer_size, "%Y-%m-%d %H:%M:%S GMT", &tm);
+  if
+  (
+   !ok ||
+   !std::strftime(buffer, buffer_size, "%Y-%m-%d %H:%M:%S GMT", &tm)
+  )
+  {
+   return std::to_string(timestamp);
+  }
 
   return std::string(buffer);
  }
-- 
2.43.0


From da45f21abd80e84d559b92f4a76f0d64f48dbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 06/43] fix: update_vector of deleted rows must be rejected by
 interpreted tables

---
 src/joedb/interpreted/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.h b/src/joedb/interpreted/Table.h
index 65e27ec..3f37d5c 100644
--- a/src/joedb/interpreted/Table.h
+++ b/src/joedb/interpreted/Table.h
@@ -77,8 +77,8 @@ namespace joedb
                                 const type *value)\
    {\
     const auto it = find_field_from_id(field_id);\
-    check_record_id(record_id);\
-    check_record_id(record_id + index_t(size) - 1);\
+    if (!freedom.is_used_vector(record_id, size))\
+     throw Exception("update: invalid record_id");\
     it->second.set_vector_##type_id(record_id, size, value);\
    }\
    type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id)\
-- 
2.43.0


From b224af9c58b2292981b6718cf3aa91e28d02b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 07/43] fix: backward iteration over free records when no
 record is used

---
 src/joedb/Freedom_Keeper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..3cdbe79 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -281,12 +281,12 @@ namespace joedb
 
     const Record_Id result = index - 1;
 
-    if (result == Record_Id{-1})
-     return used_list;
-
     if (result == used_size - 1)
      return free_list;
 
+    if (result == Record_Id{-1})
+     return used_list;
+
     return result;
    }
 
-- 
2.43.0


From 7a113d2f3bc0c4099e3ddbab2ebbf8355437f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 08/43] fix: refuse to create a table when there are no more
 table identifiers

---
 src/joedb/interpreted/Database_Schema.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/joedb/interpreted/Database_Schema.cpp b/src/joedb/interpreted/Database_Schema.cpp
index a10c710..3c4698a 100644
--- a/src/joedb/interpreted/Database_Schema.cpp
+++ b/src/joedb/interpreted/Database_Schema.cpp
@@ -2,6 +2,8 @@
 #include "joedb/error/Exception.h"
 #include "joedb/is_identifier.h"
 
+#include <limits>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -108,6 +110,9 @@ namespace joedb
   if (find_table(name) != Table_Id(0))
    throw Exception("create_table: name already used: " + name);
 
+  if (current_table_id == Table_Id(std::numeric_limits<std::underlying_type<Table_Id>::type>::max()))
+   throw Exception("create_table: reached maximum table count");
+
   ++current_table_id;
   tables.try_emplace(current_table_id);
   table_names.try_emplace(current_table_id, name);
-- 
2.43.0


From 8718556c42c1309db3a523b76ada970b80edbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 09/43] fix: comparison of files that read less than asked

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From 5d9d04e2f255b1be3dbc67deb78fa3486d7a28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 10/43] fix: digest of files that read less than asked

---
 src/joedb/journal/File_Hasher.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..be59139 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -1,4 +1,5 @@
 #include "joedb/journal/File_Hasher.h"
+#include "joedb/journal/Async_Reader.h"
 #include "joedb/journal/Readonly_Journal.h"
 #include "joedb/journal/Readonly_Memory_File.h"
 
@@ -28,7 +29,13 @@ namespace joedb
    if (current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   // Async_Reader fills the block even if the file reads less than asked
+   const size_t read_count = Async_Reader
+   (
+    file,
+    start + current_size,
+    start + current_size + int64_t(block_size)
+   ).read(hashing_buffer.data(), block_size);
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +105,12 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   Async_Reader
+   (
+    file,
+    buffer_position,
+    buffer_position + int64_t(buffer.size())
+   ).read(buffer.data(), buffer.size());
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From f43e6b01ecf610cc06492a3b1e4cc927ce3272f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 11/43] fix: Stream_File over stream buffers with separate read
 and write positions

---
 src/joedb/journal/Stream_File.cpp | 20 +++++++++++++++-----
 src/joedb/journal/Stream_File.h   |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..14a60e8 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  direction(std::ios_base::in)
  {
   streambuf.pubseekoff
   (
@@ -33,16 +34,25 @@ namespace joedb
    std::ios_base::in
   );
 
+  direction = std::ios_base::in;
+
   return pos;
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek
  /////////////////////////////////////////////////////////////////////////////
+ (
+  int64_t offset,
+  std::ios_base::openmode new_direction
+ ) const
  {
-  if (int64_t(pos) == offset)
+  // Some stream buffers have different positions for reading and writing
+  if (int64_t(pos) == offset && direction == new_direction)
    return;
 
+  direction = new_direction;
+
   if (offset >= 0)
   {
    pos = streambuf.pubseekoff(offset, std::ios_base::beg);
@@ -57,7 +67,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, std::ios_base::in);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +77,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, std::ios_base::out);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..cfc932c 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,8 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+   mutable std::ios_base::openmode direction;
+   void seek(int64_t offset, std::ios_base::openmode new_direction) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From 66eb192a276975cf5952fdcc0ca673c20b9f7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 12/43] fix: filebuf seeks from the end after a write, and to
 negative positions

---
 src/joedb/journal/filebuf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..432b356 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -44,7 +44,10 @@ namespace joedb
     : out_pos + pptr() - pbase();
   }
   else if (dir == std::ios_base::end)
+  {
+   syncp();
    base = file.get_size();
+  }
 
   if (base < 0)
    return pos_type(off_type(-1));
@@ -62,6 +65,9 @@ namespace joedb
  {
   sync();
 
+  if (pos < 0)
+   return pos_type(off_type(-1));
+
   if (which & std::ios_base::in)
    in_pos = pos;
 
-- 
2.43.0


From 1c69c036125106b6b4e3a5e2991b2a539f02edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 13/43] fix: filebuf puts back any character, and none beyond
 the end

---
 src/joedb/journal/filebuf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index 432b356..d928ce8 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -194,9 +194,10 @@ namespace joedb
  {
   if (gptr() == eback() && in_pos > 0)
   {
+   if (file.pread(buffer.data(), 1, in_pos - off_type(1)) == 0)
+    return traits_type::eof();
    in_pos -= 1;
    setg(buffer.data(), buffer.data() + 1, buffer.data() + 1);
-   file.pread(buffer.data(), 1, in_pos);
   }
 
   if (gptr() > eback())
@@ -211,7 +212,7 @@ namespace joedb
      file.pwrite(gptr(), 1, in_pos + gptr() - eback());
     }
    }
-   return *gptr();
+   return traits_type::to_int_type(*gptr());
   }
 
   return traits_type::eof();
-- 
2.43.0


From 1d85b9ec9545f36dbb3b7412f9db32ac8bb6e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:59 +0000
Subject: [PATCH 14/43] fix: encoded file reads at the end of the file and in
 never-written ranges

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..a8d1095 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -1,5 +1,8 @@
 #include "joedb/journal/Readonly_Encoded_File.h"
 
+#include <algorithm>
+#include <cstring>
+
 namespace joedb
 {
  //////////////////////////////////////////////////////////////////////////
@@ -12,9 +15,17 @@ namespace joedb
  ) const
  {
   const int64_t start = offset;
-  const int64_t end = offset + int64_t(size);
+  const int64_t end = std::min
+  (
+   offset + int64_t(size),
+   Readonly_Encoded_File::get_size()
+  );
+
+  if (start >= end)
+   return 0;
 
-  int64_t global_end = 0;
+  // bytes that were never written are zero
+  std::memset(buffer, 0, size_t(end - start));
 
   for (auto b: db.get_buffer_table())
   {
@@ -27,9 +38,6 @@ namespace joedb
 
    if (intersection_size > 0)
    {
-    if (intersection_end > global_end)
-     global_end = intersection_end;
-
     if (b != decoded_buffer)
     {
      if (int64_t(read_buffer.size()) < db.get_size(b))
@@ -54,7 +62,7 @@ namespace joedb
    }
   }
 
-  return size_t(global_end - offset);
+  return size_t(end - start);
  }
 
  //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e8d4a42ee8c9128ae49aee62c3790b0e5eeeab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:35 +0000
Subject: [PATCH 15/43] fix: field names that are C++ keywords (or db, range)
 in a non-unique index

---
 src/joedb/compiler/generator/Database_h.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/joedb/compiler/generator/Database_h.cpp b/src/joedb/compiler/generator/Database_h.cpp
index 5ab6738..12ab82e 100644
--- a/src/joedb/compiler/generator/Database_h.cpp
+++ b/src/joedb/compiler/generator/Database_h.cpp
@@ -661,7 +661,7 @@ namespace joedb::generator
      out << ", ";
      const Type &type = db.get_field_type(index.table_id, index.field_ids[i]);
      write_type(out, type, false, true);
-     out << ' ' << db.get_field_name(index.table_id, index.field_ids[i]);
+     out << " field_value_of_" << db.get_field_name(index.table_id, index.field_ids[i]);
     }
     out << ")\n";
     out << "   {\n";
@@ -672,7 +672,7 @@ namespace joedb::generator
     {
      if (i > 0)
       out << ", ";
-     out << db.get_field_name(index.table_id, index.field_ids[i]);
+     out << "field_value_of_" << db.get_field_name(index.table_id, index.field_ids[i]);
     }
     out << "));\n";
     out << "   }\n";
-- 
2.43.0


From c00f3f94beaa361d9efac7a21138c228c7176cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:35 +0000
Subject: [PATCH 16/43] fix: floats keep their value in text logs, JSON, and
 text databases

---
 src/joedb/journal/Interpreted_File.cpp | 3 +++
 src/joedb/ui/joedb_logdump.cpp         | 3 +++
 src/joedb/ui/joedb_to_json.cpp         | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/joedb/journal/Interpreted_File.cpp b/src/joedb/journal/Interpreted_File.cpp
index a4eefbd..bb5480b 100644
--- a/src/joedb/journal/Interpreted_File.cpp
+++ b/src/joedb/journal/Interpreted_File.cpp
@@ -1,5 +1,7 @@
 #include "joedb/journal/Interpreted_File.h"
 
+#include <limits>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -35,6 +37,7 @@ namespace joedb
  {
   interpreter.set_echo(false);
   interpreter.set_rethrow(true);
+  ios.precision(std::numeric_limits<double>::max_digits10);
   read_data();
  }
 
diff --git a/src/joedb/ui/joedb_logdump.cpp b/src/joedb/ui/joedb_logdump.cpp
index 886a2a6..f0a88d2 100644
--- a/src/joedb/ui/joedb_logdump.cpp
+++ b/src/joedb/ui/joedb_logdump.cpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <memory>
 #include <cstring>
+#include <limits>
 #include <optional>
 
 namespace joedb
@@ -57,6 +58,8 @@ namespace joedb
    dump_header(std::cout, file);
   else
   {
+   std::cout.precision(std::numeric_limits<double>::max_digits10);
+
    std::optional<Readonly_Journal> journal;
 
    journal.emplace
diff --git a/src/joedb/ui/joedb_to_json.cpp b/src/joedb/ui/joedb_to_json.cpp
index a139d81..f11eac4 100644
--- a/src/joedb/ui/joedb_to_json.cpp
+++ b/src/joedb/ui/joedb_to_json.cpp
@@ -5,6 +5,7 @@
 #include "joedb/journal/Readonly_Journal.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb
 {
@@ -25,6 +26,7 @@ namespace joedb
   Readonly_Journal journal(file);
   Database db;
   journal.replay_log(db);
+  std::cout.precision(std::numeric_limits<double>::max_digits10);
   const int error = write_json(std::cout, db, base64);
 
   if (error & JSON_Error::utf8)
-- 
2.43.0


From 520ecd3877246721df0e5cc320c6c1f0329e0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 17/43] fix: default values of floats in generated code have
 all their digits

---
 src/joedb/compiler/generator/Generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/joedb/compiler/generator/Generator.cpp b/src/joedb/compiler/generator/Generator.cpp
index 576eb76..4a19a9d 100644
--- a/src/joedb/compiler/generator/Generator.cpp
+++ b/src/joedb/compiler/generator/Generator.cpp
@@ -4,6 +4,7 @@
 #include "joedb/ui/get_time_string.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb::generator
 {
@@ -218,6 +219,7 @@ namespace joedb::generator
 
   write_source_code(dir_string, file_name, [&](std::ostream &out)
   {
+   out.precision(std::numeric_limits<double>::max_digits10);
    write_initial_comment(out);
    write(out);
   });
-- 
2.43.0


From 6107546561b39bb9838da248af11f1b2938a5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 18/43] fix: joedbc refuses indexes without field, with
 repeated fields or names, and invalid namespaces

---
 src/joedb/compiler/Compiler_Options_io.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/joedb/compiler/Compiler_Options_io.cpp b/src/joedb/compiler/Compiler_Options_io.cpp
index 02b81cf..8ecc4d8 100644
--- a/src/joedb/compiler/Compiler_Options_io.cpp
+++ b/src/joedb/compiler/Compiler_Options_io.cpp
@@ -36,7 +36,13 @@ namespace joedb
    {
     std::string s;
     iss >> s;
-    compiler_options.set_name_space(split_namespace(s));
+    std::vector<std::string> name_space = split_namespace(s);
+
+    for (const std::string &name: name_space)
+     if (!joedb::is_identifier(name))
+      throw Exception("Invalid namespace: " + s);
+
+    compiler_options.set_name_space(std::move(name_space));
    }
    else if (command == "create_index" || command == "create_unique_index")
    {
@@ -61,6 +67,9 @@ namespace joedb
        const Field_Id field_id = db.find_field(index.table_id, field_name);
        if (field_id == Field_Id(0))
         throw Exception("Field not found: " + field_name);
+       for (const Field_Id other_field_id: index.field_ids)
+        if (other_field_id == field_id)
+         throw Exception("Repeated field in index: " + field_name);
        index.field_ids.emplace_back(field_id);
       }
       else
@@ -71,6 +80,13 @@ namespace joedb
     if (!joedb::is_identifier(index.name))
      throw Exception("Invalid index identifier: " + index.name);
 
+    if (index.field_ids.empty())
+     throw Exception("Index without a field: " + index.name);
+
+    for (const Compiler_Options::Index &other: compiler_options.get_indices())
+     if (other.name == index.name)
+      throw Exception("Index name already used: " + index.name);
+
     compiler_options.add_index(std::move(index));
    }
    else if (command == "set_table_storage")
-- 
2.43.0


From fdb067afef6e320a9bf8a830e3935eb58dd2b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 19/43] fix: fields named position, journal or
 schema_checkpoint were hidden in writable databases

---
 src/joedb/compiler/Compiler_Options.h              | 10 ++++++++++
 .../compiler/generator/Database_Writable_h.cpp     | 14 +++++++++++++-
 .../compiler/generator/Writable_Database_h.cpp     |  5 +++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/joedb/compiler/Compiler_Options.h b/src/joedb/compiler/Compiler_Options.h
index 8d5a8ae..e7a2c51 100644
--- a/src/joedb/compiler/Compiler_Options.h
+++ b/src/joedb/compiler/Compiler_Options.h
@@ -120,6 +120,16 @@ namespace joedb
     return false;
    }
 
+   bool has_field(const std::string &field_name, bool single_row) const
+   {
+    for (const auto &[table_id, table_name]: db.get_tables())
+     if (get_table_options(table_id).single_row == single_row)
+      for (const auto &[field_id, name]: db.get_fields(table_id))
+       if (name == field_name)
+        return true;
+    return false;
+   }
+
    void set_name_space(std::vector<std::string> v)
    {
     name_space = std::move(v);
diff --git a/src/joedb/compiler/generator/Database_Writable_h.cpp b/src/joedb/compiler/generator/Database_Writable_h.cpp
index 0c0a434..ed7af80 100644
--- a/src/joedb/compiler/generator/Database_Writable_h.cpp
+++ b/src/joedb/compiler/generator/Database_Writable_h.cpp
@@ -516,8 +516,20 @@ namespace joedb::generator
   //
   // Public stuff
   //
+  out << "\n  public:\n";
+
+  if (options.has_field("position", true))
+   out << "   using Database::get_position;\n";
+  else if (options.has_field("position", false))
+  {
+   out << "   using Database::get_position;\n";
+   out << "   using joedb::Writable::get_position;\n";
+  }
+
+  if (options.has_field("schema_checkpoint", false) && !options.has_field("schema_checkpoint", true))
+   out << "   using Database::get_schema_checkpoint;\n";
+
   out << R"RRR(
-  public:
    Database_Writable():
     max_record_id(0),
     schema_journal(schema_file)
diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 598a5c5..a28ffc3 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -123,7 +123,12 @@ namespace joedb::generator
     joedb::Abstract_File &file,
     joedb::Recovery recovery
    );
+)RRR";
+
+  if (options.has_field("journal", false) && !options.has_field("journal", true))
+   out << "\n   using Database::get_journal;\n";
 
+  out << R"RRR(
    const joedb::Readonly_Journal &get_journal() const {return journal;}
 
    std::string read_blob(joedb::Blob blob) const
-- 
2.43.0


From 5ee43e9d7718014887f509dc4040da203d864de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 20/43] fix: blob field in a table with a default row did not
 compile

---
 src/joedb/compiler/generator/Writable_Database_cpp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/joedb/compiler/generator/Writable_Database_cpp.cpp b/src/joedb/compiler/generator/Writable_Database_cpp.cpp
index 420018d..99a3250 100644
--- a/src/joedb/compiler/generator/Writable_Database_cpp.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_cpp.cpp
@@ -228,9 +228,14 @@ namespace joedb::generator
        out << "(";
       }
 
+      const bool blob = type.get_type_id() == joedb::Type::Type_Id::blob;
+
+      if (blob)
+       out << "joedb::Blob(";
+
       joedb::write_value(out, db, tid, record_id, fid);
 
-      if (reference)
+      if (reference || blob)
        out << ")";
 
       out <<");\n";
-- 
2.43.0


From d4f46e890fbeca3a12c7dd4ed54f8c6c690f9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 21/43] fix: joedbc refuses references to dropped tables, and
 accepts a repeated custom event

---
 src/joedb/compiler/joedbc.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/joedb/compiler/joedbc.cpp b/src/joedb/compiler/joedbc.cpp
index 2428f33..a0c3fb5 100644
--- a/src/joedb/compiler/joedbc.cpp
+++ b/src/joedb/compiler/joedbc.cpp
@@ -41,6 +41,7 @@
 #include "joedb/compiler/generator/Signatures_h.h"
 #include "joedb/compiler/generator/RPC_Client_h.h"
 
+#include <algorithm>
 #include <iostream>
 #include <filesystem>
 #include <regex>
@@ -63,7 +64,8 @@ namespace joedb
    {
     if (!is_identifier(name))
      throw Exception("custom: invalid identifier");
-    names.emplace_back(name);
+    if (std::find(names.begin(), names.end(), name) == names.end())
+     names.emplace_back(name);
    }
  };
 
@@ -97,8 +99,24 @@ namespace joedb
   }
 
   for (const auto &[tid, tname]: options.db.get_tables())
+  {
    options.table_options[tid];
 
+   for (const auto &[fid, fname]: options.db.get_fields(tid))
+   {
+    const Type &type = options.db.get_field_type(tid, fid);
+
+    if
+    (
+     type.get_type_id() == Type::Type_Id::reference &&
+     options.db.get_tables().count(type.get_table_id()) == 0
+    )
+    {
+     throw Exception("Reference to a dropped table: " + tname + '.' + fname);
+    }
+   }
+  }
+
   //
   // Read file.joedbc
   //
-- 
2.43.0


From 2454c1a193f67b3afe9caf56112fd78c470aeae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 22/43] fix: merging a table whose last rows were deleted
 brought them back

---
 src/joedb/ui/merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/ui/merge.cpp b/src/joedb/ui/merge.cpp
index e0dff58..84c4685 100644
--- a/src/joedb/ui/merge.cpp
+++ b/src/joedb/ui/merge.cpp
@@ -25,7 +25,7 @@ void joedb::merge(Database &merged, const Database &db)
   {
    // do nothing, table is empty
   }
-  else if (freedom_keeper.is_dense())
+  else if (freedom_keeper.get_used_count() == size)
   {
    merged.insert_vector(tid, offset[tid], size_t(size));
 
-- 
2.43.0


From fea22b2a809545a8c298f51ccd0743dfc4c5586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 23/43] fix: invalid JSON for overlong UTF-8 and code points
 above U+10FFFF

---
 src/joedb/ui/minimal_runtime_io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/joedb/ui/minimal_runtime_io.cpp b/src/joedb/ui/minimal_runtime_io.cpp
index 2620485..5e9f6d0 100644
--- a/src/joedb/ui/minimal_runtime_io.cpp
+++ b/src/joedb/ui/minimal_runtime_io.cpp
@@ -68,6 +68,18 @@ namespace joedb
     out.put('\\').put('"');
    else if (c == '\\')
     out.put('\\').put('\\');
+   else if // overlong encodings, and code points above U+10FFFF
+   (
+    c == 0xc0 ||
+    c == 0xc1 ||
+    c > 0xf4 ||
+    (c == 0xe0 && i + 1 < s.size() && uint8_t(s[i + 1]) < 0xa0) ||
+    (c == 0xf0 && i + 1 < s.size() && uint8_t(s[i + 1]) < 0x90) ||
+    (c == 0xf4 && i + 1 < s.size() && uint8_t(s[i + 1]) > 0x8f)
+   )
+   {
+    write_octal_character(out, c, json);
+   }
    else if ((c & 0xe0) == 0xc0 &&
             i + 1 < s.size() &&
             (s[i + 1] & 0xc0) == 0x80)
-- 
2.43.0


From 18b10e65a3a67cf3c058824c2cea5841b4bd65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 24/43] fix: the interpreter read malformed or out-of-range
 values as 0

---
 .../Data_Manipulation_Command_Processor.cpp   | 48 +++++++++++++------
 .../Readable_Writable_Command_Processor.cpp   |  2 +
 src/joedb/ui/type_io.cpp                      | 21 ++++++--
 src/joedb/ui/type_io.h                        | 20 +++++++-
 4 files changed, 72 insertions(+), 19 deletions(-)

diff --git a/src/joedb/ui/Data_Manipulation_Command_Processor.cpp b/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
index 25a8002..f0fb652 100644
--- a/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
+++ b/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
@@ -8,6 +8,26 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static void check_parsing(const std::istream &in, Type::Type_Id type_id)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  // a string may end at the end of the line
+  if (in.fail() && type_id != Type::Type_Id::string)
+   throw Exception("failed parsing value");
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ template<typename T> static T parse_number(std::istream &in)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  T result{};
+  in >> result;
+  if (in.fail())
+   throw Exception("failed parsing number");
+  return result;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void Data_Manipulation_Command_Processor::update_value
  ////////////////////////////////////////////////////////////////////////////
@@ -27,6 +47,7 @@ namespace joedb
    case Type::Type_Id::type_id:\
    {\
     const type value = joedb::read_##type_id(in);\
+    check_parsing(in, Type::Type_Id::type_id);\
     writable.update_##type_id(table_id, record_id, field_id, value);\
    }\
    break;
@@ -73,7 +94,9 @@ namespace joedb
   {
    const Table_Id table_id = parse_table(parameters, readable);
    Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+
+   if ((parameters >> std::ws).good())
+    record_id = parse_number<Record_Id>(parameters);
 
    if (record_id.is_null())
     record_id = readable.get_size(table_id);
@@ -93,32 +116,28 @@ namespace joedb
   else if (command == "delete_from") ////////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   const Record_Id record_id = parse_number<Record_Id>(parameters);
 
    writable.delete_from(table_id, record_id);
   }
   else if (command == "insert_vector") /////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   size_t size = 0;
-   parameters >> record_id >> size;
+   const Record_Id record_id = parse_number<Record_Id>(parameters);
+   const size_t size = parse_number<size_t>(parameters);
    writable.insert_vector(table_id, record_id, size);
   }
   else if (command == "delete_vector") /////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   size_t size = 0;
-   parameters >> record_id >> size;
+   const Record_Id record_id = parse_number<Record_Id>(parameters);
+   const size_t size = parse_number<size_t>(parameters);
    writable.delete_vector(table_id, record_id, size);
   }
   else if (command == "update") ////////////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   const Record_Id record_id = parse_number<Record_Id>(parameters);
    std::string field_name;
    parameters >> field_name;
    const Field_Id field_id = readable.find_field(table_id, field_name);
@@ -127,13 +146,11 @@ namespace joedb
   else if (command == "update_vector") /////////////////////////////////////
   {
    const Table_Id table_id = parse_table(parameters, readable);
-   Record_Id record_id = Record_Id::null;
-   parameters >> record_id;
+   const Record_Id record_id = parse_number<Record_Id>(parameters);
    std::string field_name;
    parameters >> field_name;
    const Field_Id field_id = readable.find_field(table_id, field_name);
-   size_t size = 0;
-   parameters >> size;
+   const size_t size = parse_number<size_t>(parameters);
 
    if (max_record_id.is_not_null() && size >= size_t(index_t(max_record_id)))
     throw Exception("vector is too big");
@@ -151,6 +168,7 @@ namespace joedb
       std::vector<type> v(size);\
       for (size_t i = 0; i < size; i++)\
        v[i] = joedb::read_##type_id(parameters);\
+      check_parsing(parameters, Type::Type_Id::type_id);\
       writable.update_vector_##type_id(table_id, record_id, field_id, size, &v[0]);\
      }\
      break;
diff --git a/src/joedb/ui/Readable_Writable_Command_Processor.cpp b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
index 8fa4e95..e15b996 100644
--- a/src/joedb/ui/Readable_Writable_Command_Processor.cpp
+++ b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
@@ -124,6 +124,8 @@ namespace joedb
       case Type::Type_Id::type_id:\
       {\
        const type value = joedb::read_##type_id(parameters);\
+       if (parameters.fail() && Type::Type_Id::type_id != Type::Type_Id::string)\
+        throw Exception("failed parsing value");\
        for (Record_Id record_id{0}; record_id < size; ++record_id)\
         if (readable.is_used(table_id, record_id))\
          writable.update_##type_id(table_id, record_id, field_id, value);\
diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index a409973..7978174 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -38,7 +38,8 @@ namespace joedb
     {
      char c1;
      char c0;
-     in.get(c1).get(c0);
+     if (!in.get(c1).get(c0))
+      break;
      const uint8_t n1 = get_hex_digit_from_char(c1);
      const uint8_t n0 = get_hex_digit_from_char(c0);
      c = char((n1 << 4) | n0);
@@ -47,7 +48,8 @@ namespace joedb
     {
      char c1;
      char c0;
-     in.get(c1).get(c0);
+     if (!in.get(c1).get(c0))
+      break;
      const uint8_t n2 = uint8_t(c  - '0');
      const uint8_t n1 = uint8_t(c1 - '0');
      const uint8_t n0 = uint8_t(c0 - '0');
@@ -206,8 +208,13 @@ namespace joedb
  int8_t read_int8(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
  {
-  int result;
+  int result = 0;
   in >> result;
+  if (result < -128 || result > 127)
+  {
+   in.setstate(std::ios::failbit);
+   return 0;
+  }
   return int8_t(result);
  }
 
@@ -255,6 +262,14 @@ namespace joedb
   in >> position;
   in.ignore(1, ',');
   in >> size;
+  if
+  (
+   position < 0 || position > max_compact_integer ||
+   size < 0 || size > max_compact_integer
+  )
+  {
+   in.setstate(std::ios::failbit);
+  }
   return Blob(position, size);
  }
 }
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index 70bf671..4fe5f6a 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -66,6 +66,25 @@ namespace joedb
   return in >> *(underlying_type<Record_Id>::type *)(&record_id);
  }
 
+ /// Largest integer that can be stored in compact form
+ constexpr int64_t max_compact_integer = (int64_t(1) << 61) - 1;
+
+ inline Record_Id read_reference(std::istream &in)
+ {
+  Record_Id value{0};
+  in >> value;
+  if (value.is_null())
+   value = Record_Id::null;
+  else if (to_underlying(value) >= max_compact_integer)
+   in.setstate(std::ios::failbit);
+  return value;
+ }
+
+ inline void write_reference(std::ostream &out, Record_Id value)
+ {
+  out << value;
+ }
+
  #define PRIMITIVE_IO(type, type_id)\
  inline type read_##type_id(std::istream &in)\
  {type value = type(); in >> value; return value;}\
@@ -74,7 +93,6 @@ namespace joedb
 
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
- PRIMITIVE_IO(Record_Id, reference)
  PRIMITIVE_IO(float, float32)
  PRIMITIVE_IO(double, float64)
  PRIMITIVE_IO(int16_t, int16)
-- 
2.43.0


From aaddeb0cf67c85e04bb1d582cd69d17a99e03860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 25/43] fix: overflow when deleting a huge vector

---
 src/joedb/Freedom_Keeper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index 3cdbe79..16a4a63 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -107,7 +107,8 @@ namespace joedb
     if
     (
      index.is_null() ||
-     index + size > freedom_size
+     index > freedom_size ||
+     size > size_t(to_underlying(freedom_size) - to_underlying(index))
     )
     {
      return false;
-- 
2.43.0


From 32f18e0a6e7476a0d932f9cb65f84b843884bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 26/43] fix: a comment with a line break escaped from the SQL
 comment

---
 src/joedb/ui/SQL_Dump_Writable.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/SQL_Dump_Writable.cpp b/src/joedb/ui/SQL_Dump_Writable.cpp
index c909a8b..73a9166 100644
--- a/src/joedb/ui/SQL_Dump_Writable.cpp
+++ b/src/joedb/ui/SQL_Dump_Writable.cpp
@@ -7,6 +7,17 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ // A comment must not contain anything that could end the line or the text
+ ////////////////////////////////////////////////////////////////////////////
+ static void write_sql_comment(std::ostream &out, const std::string &comment)
+ {
+  out << "-- ";
+  for (const char c: comment)
+   out.put((c == '\n' || c == '\r' || c == '\0') ? ' ' : c);
+  out.put('\n');
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::write_type(Type type)
  ////////////////////////////////////////////////////////////////////////////
@@ -144,14 +155,14 @@ namespace joedb
  void SQL_Writable::custom(const std::string &name)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- custom: " << name << '\n';
+  write_sql_comment(out, "custom: " + name);
  }
 
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::comment(const std::string &comment)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- " << comment << '\n';
+  write_sql_comment(out, comment);
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 431c5102e3e4f819c0ab04fc97779c8720c0c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 27/43] fix: joedb_convert without --until copied nothing

---
 src/joedb/ui/process_journal_pair.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/process_journal_pair.cpp b/src/joedb/ui/process_journal_pair.cpp
index 376ba52..013ec9a 100644
--- a/src/joedb/ui/process_journal_pair.cpp
+++ b/src/joedb/ui/process_journal_pair.cpp
@@ -2,6 +2,7 @@
 #include "joedb/journal/File.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb
 {
@@ -18,7 +19,7 @@ namespace joedb
   (
    "until",
    "checkpoint",
-   0
+   std::numeric_limits<int64_t>::max()
   );
   const beman::cstring_view input = arguments.get_next("input.joedb");
   const beman::cstring_view output = arguments.get_next("output.joedb");
-- 
2.43.0


From b78355243c683b6a045b8d0fdbbfd460a408f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 28/43] fix: joedb_push --db dump and --db sql truncated
 floating-point values

---
 src/joedb/ui/Parsed_Client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/ui/Parsed_Client.cpp b/src/joedb/ui/Parsed_Client.cpp
index ff9a6a1..de0e56f 100644
--- a/src/joedb/ui/Parsed_Client.cpp
+++ b/src/joedb/ui/Parsed_Client.cpp
@@ -12,6 +12,7 @@
 
 #include <iostream>
 #include <cstring>
+#include <limits>
 
 namespace joedb
 {
@@ -33,6 +34,8 @@ namespace joedb
     Readonly_Client(file, connection, content_check, recovery),
     writable_multiplexer(std::cout)
    {
+    std::cout.precision(std::numeric_limits<double>::max_digits10);
+
     if (tail)
      writable_multiplexer.set_start_index(1);
 
-- 
2.43.0


From 545b05cc2fbf2660a68d2812517e924a8e4e37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 29/43] fix: skipping in a journal must forget the context of
 the last operation

Writable_Journal_Client skips to the checkpoint at each transaction. When another
client had written in between, the next insertion or update was encoded relatively
to an operation that is not the previous one in the file.
---
 src/joedb/journal/Readonly_Journal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 28cb8b9..1a0ba32 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -116,6 +116,7 @@ namespace joedb
    void skip_directly_to(int64_t position)
    {
     file_buffer.set_position(position);
+    reset_context();
    }
    bool equal_to(Readonly_Journal &journal, int64_t from, int64_t until) const
    {
-- 
2.43.0


From 60e45feee7962764ab0a6ac7cd4c0d8bf16176eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 30/43] fix: an abandoned transaction must not be written over
 the data of other clients

The destructor of the journal flushed the buffer of an abandoned transaction,
after the lock on the tail of the shared file was released.
---
 src/joedb/journal/File_Buffer.h        | 7 +++++++
 src/joedb/journal/Writable_Journal.cpp | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index 96ba928..844dfe7 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -69,6 +69,13 @@ namespace joedb
    File_Buffer(Abstract_File &file);
    void flush();
 
+   // forget data that was not written to the file yet
+   void discard() noexcept
+   {
+    buffer.index = 0;
+    read_buffer_size = 0;
+   }
+
    // set_position must be called when switching between write and read
    void set_position(int64_t position);
 
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 903ed9f..5ac5761 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -532,7 +532,13 @@ namespace joedb
  /////////////////////////////////////////////////////////////////////////////
  {
   if (ahead_of_checkpoint() > 0)
+  {
    Destructor_Logger::warning("Writable_Journal: ahead of checkpoint");
+
+   // The tail lock was released: another writer may own this part of the file
+   if (file.is_shared())
+    file_buffer.discard();
+  }
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From cef9c5b259948aefb689d1536b0b07b074e52bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 31/43] fix: a refused push was written into the database of
 the server

The writer of the previous push of the session was still there.
---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..aaf3e32 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset(); // a refused push must not write with the previous writer
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From dd66383bbb6deccd7efa73b8b034697b42d5d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:41 +0000
Subject: [PATCH 32/43] fix: the lock timeout of a session must not run after
 its destruction

---
 src/joedb/concurrency/Server.cpp | 5 +++--
 src/joedb/concurrency/Server.h   | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index aaf3e32..f337bd0 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -150,9 +150,10 @@ namespace joedb
    lock_timeout_timer.expires_after(get_server().lock_timeout);
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    [this, session = std::weak_ptr<char>(alive)](std::error_code error)
     {
-     if (!error)
+     // when the timer expired, it is too late for ~Session to cancel this
+     if (!error && !session.expired())
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..51ec4e9 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -6,6 +6,7 @@
 
 #include <deque>
 #include <map>
+#include <memory>
 #include <optional>
 
 namespace joedb
@@ -28,6 +29,7 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     const std::shared_ptr<char> alive = std::make_shared<char>();
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0


From 0ef3b84f32f9c69802a7842cf56881bd8eb69ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:41 +0000
Subject: [PATCH 33/43] fix: a server must not wait for data during a pull with
 the lock

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index f337bd0..cb67228 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -308,6 +308,7 @@ namespace joedb
   if
   (
    wait.count() > 0 &&
+   !locking && // no data can come, and others are waiting for the lock
    pull_checkpoint == get_server().client.get_journal_checkpoint()
   )
   {
-- 
2.43.0


From 36786bb4d4ea7cdb125596cb45a6971adbc34cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 34/43] fix: a server must reject negative positions and huge
 waiting times

---
 src/joedb/concurrency/Server.cpp | 33 +++++++++++++++++++++++++-------
 src/joedb/concurrency/Server.h   |  1 +
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index cb67228..204009b 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -171,6 +171,18 @@ namespace joedb
   }
  }
 
+ ///////////////////////////////////////////////////////////////////////////
+ int64_t Server::Session::read_position()
+ ///////////////////////////////////////////////////////////////////////////
+ {
+  const int64_t position = buffer.read<int64_t>();
+
+  if (position < 0)
+   throw Exception("error: negative position");
+
+  return position;
+ }
+
  ///////////////////////////////////////////////////////////////////////////
  boost::asio::awaitable<void> Server::Session::send(Async_Reader reader)
  ///////////////////////////////////////////////////////////////////////////
@@ -211,7 +223,7 @@ namespace joedb
  {
   co_await read_buffer(1, 40);
 
-  const auto checkpoint = buffer.read<int64_t>();
+  const auto checkpoint = read_position();
   const auto hash = buffer.read<SHA_256::Hash>();
 
   const Readonly_Journal &journal = get_server().client.get_journal();
@@ -275,8 +287,8 @@ namespace joedb
  {
   co_await read_buffer(1, 16);
 
-  int64_t from = buffer.read<int64_t>();
-  int64_t until = buffer.read<int64_t>();
+  int64_t from = read_position();
+  int64_t until = read_position();
 
   if (until > get_server().client.get_journal_checkpoint())
    until = get_server().client.get_journal_checkpoint();
@@ -299,8 +311,15 @@ namespace joedb
  {
   co_await read_buffer(1, 16);
 
-  const std::chrono::milliseconds wait{buffer.read<int64_t>()};
-  int64_t pull_checkpoint = buffer.read<int64_t>();
+  const std::chrono::milliseconds wait = std::min
+  (
+   std::chrono::milliseconds{buffer.read<int64_t>()},
+   std::chrono::duration_cast<std::chrono::milliseconds>
+   (
+    boost::asio::steady_timer::duration::max()
+   )
+  );
+  int64_t pull_checkpoint = read_position();
 
   if (!get_server().client_lock)
    get_server().client.pull(); // ??? takes_time
@@ -355,8 +374,8 @@ namespace joedb
  {
   co_await read_buffer(1, 16);
 
-  const int64_t from = buffer.read<int64_t>();
-  const int64_t until = buffer.read<int64_t>();
+  const int64_t from = read_position();
+  const int64_t until = read_position();
 
   if (get_server().locked && !locking)
    throw Exception("trying to push while someone else is locking");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index 51ec4e9..8f32f7b 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -37,6 +37,7 @@ namespace joedb
      char push_status;
      std::optional<joedb::Async_Writer> push_writer;
 
+     int64_t read_position();
      boost::asio::awaitable<void> send(Async_Reader reader);
      boost::asio::awaitable<void> handshake();
      boost::asio::awaitable<void> check_hash();
-- 
2.43.0


From dd787bc5f73ec411c28d0bd3e71df331df1a089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 35/43] fix: unpushed changes must not be mixed with new data
 of the connection

---
 src/joedb/concurrency/Client.h          | 27 ++++++++++-
 src/joedb/concurrency/Writable_Client.h | 63 +++++++++++++++++++------
 2 files changed, 74 insertions(+), 16 deletions(-)

diff --git a/src/joedb/concurrency/Client.h b/src/joedb/concurrency/Client.h
index cda5566..fd1aaa7 100644
--- a/src/joedb/concurrency/Client.h
+++ b/src/joedb/concurrency/Client.h
@@ -14,10 +14,31 @@ namespace joedb
    virtual void read_journal() {}
    Readonly_Journal &journal;
    Connection &connection;
+   const Content_Check content_check;
    int64_t connection_checkpoint;
 
+   /// Journal and connection are known to be the same until this position
+   int64_t common_checkpoint;
+
+   int64_t get_min_checkpoint() const
+   {
+    return std::min(journal.get_checkpoint(), connection_checkpoint);
+   }
+
+   /// Detect conflicts when both the journal and the connection moved on
+   void check_content()
+   {
+    if (get_min_checkpoint() > common_checkpoint)
+    {
+     connection.handshake(journal, content_check);
+     common_checkpoint = get_min_checkpoint();
+    }
+   }
+
    int64_t push(int64_t until, Unlock_Action unlock_action)
    {
+    check_content();
+
     connection_checkpoint = connection.push
     (
      journal,
@@ -26,6 +47,8 @@ namespace joedb
      unlock_action
     );
 
+    common_checkpoint = get_min_checkpoint();
+
     return connection_checkpoint;
    }
 
@@ -45,7 +68,9 @@ namespace joedb
    ):
     journal(journal),
     connection(connection),
-    connection_checkpoint(connection.handshake(journal, content_check))
+    content_check(content_check),
+    connection_checkpoint(connection.handshake(journal, content_check)),
+    common_checkpoint(get_min_checkpoint())
    {
    }
 
diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..80ea23b 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -83,15 +83,55 @@ namespace joedb
      get_writable_journal().hard_checkpoint();
    }
 
-   void start_transaction()
+   void pull_connection
+   (
+    Lock_Action lock_action,
+    std::chrono::milliseconds wait = std::chrono::milliseconds(0)
+   )
    {
-    connection_checkpoint = connection.pull
-    (
-     Lock_Action::lock_before,
-     Data_Transfer::with_data,
-     get_writable_journal()
-    );
+    if (get_journal_checkpoint() > common_checkpoint)
+    {
+     const int64_t old_connection_checkpoint = connection_checkpoint;
+
+     connection_checkpoint = connection.pull
+     (
+      lock_action,
+      Data_Transfer::without_data,
+      get_writable_journal()
+     );
+
+     try
+     {
+      check_content();
+     }
+     catch (...)
+     {
+      connection_checkpoint = old_connection_checkpoint;
+      if (lock_action == Lock_Action::lock_before)
+       connection.unlock();
+      throw;
+     }
+
+     lock_action = Lock_Action::no_locking;
+    }
+
+    if (get_journal_checkpoint() == common_checkpoint)
+    {
+     connection_checkpoint = connection.pull
+     (
+      lock_action,
+      Data_Transfer::with_data,
+      get_writable_journal(),
+      wait
+     );
+    }
+
+    common_checkpoint = get_min_checkpoint();
+   }
 
+   void start_transaction()
+   {
+    pull_connection(Lock_Action::lock_before);
     read_journal();
    }
 
@@ -131,14 +171,7 @@ namespace joedb
 
     const Tail_Exclusive_Lock lock(get_writable_journal());
 
-    connection_checkpoint = connection.pull
-    (
-     Lock_Action::no_locking,
-     Data_Transfer::with_data,
-     get_writable_journal(),
-     wait
-    );
-
+    pull_connection(Lock_Action::no_locking, wait);
     read_journal();
 
     return get_journal_checkpoint() - old_checkpoint;
-- 
2.43.0


From bf1618f90e8c39b82e414f3af024b02aa7c9c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 36/43] fix: the keep-alive thread must not outlive the members
 that it uses

---
 src/joedb/concurrency/Server_Client.cpp | 4 ++--
 src/joedb/concurrency/Server_Client.h   | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..c3c4480 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -116,13 +116,13 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
   pullonly_server(false)
  {
   connect();
+  keep_alive.emplace(*this, keep_alive_interval);
  }
 
  ////////////////////////////////////////////////////////////////////////////
@@ -135,7 +135,7 @@ namespace joedb
    lock->write(buffer.data, 1);
   }
 
-  keep_alive.stop();
+  keep_alive->stop();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..cc5902a 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -9,6 +9,7 @@
 #include "joedb/error/Logger.h"
 
 #include <chrono>
+#include <optional>
 
 namespace joedb
 {
@@ -19,7 +20,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
 
    void connect();
    void disconnect();
@@ -44,6 +44,10 @@ namespace joedb
 
    void log(beman::cstring_view message) noexcept override;
 
+  private:
+   /// Runs between connection and destruction of the members it uses
+   std::optional<Keep_Alive_Thread> keep_alive;
+
   public:
    ///
    /// @param keep_alive_interval: a background thread will send a ping
-- 
2.43.0


From d856ea8e99aad1896434a07b54b18b6dbacbb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 37/43] fix: a keep-alive ping must not overwrite the request
 in the buffer

---
 src/joedb/concurrency/Server_Connection.cpp | 34 ++++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..339dbc9 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,13 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
 
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,21 +52,19 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
+  const SHA_256::Hash hash = content_check == Content_Check::fast
+   ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
+   : Journal_Hasher::get_full_hash(client_journal, checkpoint);
+
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
   buffer.write<int64_t>(checkpoint);
-  buffer.write
-  (
-   content_check == Content_Check::fast
-   ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
-   : Journal_Hasher::get_full_hash(client_journal, checkpoint)
-  );
+  buffer.write(hash);
 
-  {
-   Lock<Channel&> lock(channel);
-   lock->write(buffer.data, buffer.index);
-   lock->read(buffer.data, 1);
-  }
+  lock->write(buffer.data, buffer.index);
+  lock->read(buffer.data, 1);
 
   log(std::string("hash result: ") + buffer.data[0]);
 
@@ -189,12 +188,11 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
-  {
-   Lock<Channel&> lock(channel);
-   buffer.data[0] = 'M';
-   lock->write(buffer.data, 1);
-   lock->read(buffer.data, 1);
-  }
+  Lock<Channel&> lock(channel);
+
+  buffer.data[0] = 'M';
+  lock->write(buffer.data, 1);
+  lock->read(buffer.data, 1);
 
   log(std::string() + buffer.data[0]);
 
-- 
2.43.0


From 3ac9f82049256f57fdf956a9205694a339b7b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:53 +0000
Subject: [PATCH 38/43] fix: an RPC client must not ping before its handshake

---
 src/joedb/rpc/Client.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 8834e75..6fd1560 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -10,6 +10,7 @@
 #include "joedb/journal/Buffer.h"
 #include "joedb/error/Exception.h"
 
+#include <optional>
 #include <vector>
 
 namespace joedb::rpc
@@ -46,7 +47,7 @@ namespace joedb::rpc
     lock->write(&c, 1);
     lock->read(&c, 1);
    }
-   Keep_Alive_Thread keep_alive;
+   std::optional<Keep_Alive_Thread> keep_alive;
 
   public:
    Client
@@ -56,10 +57,12 @@ namespace joedb::rpc
     std::chrono::milliseconds keep_alive_interval = std::chrono::milliseconds(0)
    ):
     channel(channel),
-    signatures(signatures),
-    keep_alive(*this, keep_alive_interval)
+    signatures(signatures)
    {
     handshake();
+
+    // no ping before the end of the handshake
+    keep_alive.emplace(*this, keep_alive_interval);
    }
 
    void call(int64_t procedure_id, Memory_File &file)
-- 
2.43.0


From 2bd3d6abb9d770d3d079af6197c139f56c250ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 39/43] fix: a server of a pull-only client, or whose client
 cannot push, must not terminate

---
 src/joedb/concurrency/Server.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 204009b..2f71e9a 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -541,17 +541,31 @@ namespace joedb
  ):
   joedb::asio::Server(logger, log_level, thread_count, std::move(endpoint_path)),
   client(client),
-  writable_journal_client(dynamic_cast<Writable_Journal_Client*>(&client)),
+  writable_journal_client
+  (
+   client.is_pullonly()
+   ? nullptr
+   : dynamic_cast<Writable_Journal_Client*>(&client)
+  ),
   lock_timeout(lock_timeout),
   locked(false)
  {
   JOEDB_RELEASE_ASSERT(thread_count == 1);
 
-  if (writable_journal_client)
+  try
+  {
+   if (writable_journal_client)
+   {
+    if (!client.is_shared())
+     client_lock.emplace(*writable_journal_client);
+    writable_journal_client->push_if_ahead();
+   }
+  }
+  catch (...)
   {
-   if (!client.is_shared())
-    client_lock.emplace(*writable_journal_client);
-   writable_journal_client->push_if_ahead();
+   client_lock.reset();
+   stop();
+   throw;
   }
  }
 
-- 
2.43.0


From 09cc7f913d78a44a035e67baf320f823f215a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 40/43] fix: a server must not accept connections before it is
 constructed

---
 src/joedb/asio/Server.cpp        | 3 +++
 src/joedb/asio/Server.h          | 4 ++++
 src/joedb/concurrency/Server.cpp | 2 ++
 src/joedb/rpc/Server.h           | 1 +
 4 files changed, 10 insertions(+)

diff --git a/src/joedb/asio/Server.cpp b/src/joedb/asio/Server.cpp
index d36add3..d5cd3da 100644
--- a/src/joedb/asio/Server.cpp
+++ b/src/joedb/asio/Server.cpp
@@ -158,7 +158,10 @@ namespace joedb::asio
     }
    }
   );
+ }
 
+ void Server::start()
+ {
   boost::asio::co_spawn
   (
    thread_pool,
diff --git a/src/joedb/asio/Server.h b/src/joedb/asio/Server.h
index b0648f0..dc57855 100644
--- a/src/joedb/asio/Server.h
+++ b/src/joedb/asio/Server.h
@@ -68,6 +68,10 @@ namespace joedb::asio
 
    boost::asio::awaitable<void> listener();
 
+  protected:
+   /// Start accepting connections, at the end of construction
+   void start();
+
   public:
    Server
    (
diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 2f71e9a..962e315 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -567,6 +567,8 @@ namespace joedb
    stop();
    throw;
   }
+
+  start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/rpc/Server.h b/src/joedb/rpc/Server.h
index 4cfcf48..d6e9642 100644
--- a/src/joedb/rpc/Server.h
+++ b/src/joedb/rpc/Server.h
@@ -216,6 +216,7 @@ namespace joedb::rpc
     signatures(signatures),
     procedures(procedures)
    {
+    start();
    }
  };
 }
-- 
2.43.0


From 4202a68ef9f5b895939036bb19647c400e64a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 41/43] fix: a server must not terminate when its connection
 fails during unlock

---
 src/joedb/asio/Server.cpp        |  4 ++--
 src/joedb/concurrency/Server.cpp | 27 ++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/joedb/asio/Server.cpp b/src/joedb/asio/Server.cpp
index d5cd3da..fe980dc 100644
--- a/src/joedb/asio/Server.cpp
+++ b/src/joedb/asio/Server.cpp
@@ -179,9 +179,9 @@ namespace joedb::asio
  void Server::join()
  {
   thread_pool.join();
-  cleanup_after_join();
-  std::remove(endpoint_path.c_str());
   joined = true;
+  std::remove(endpoint_path.c_str());
+  cleanup_after_join();
  }
 
  void Server::cleanup_after_join()
diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 962e315..ffd04de 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -56,8 +56,14 @@ namespace joedb
  void Server::Session::cleanup()
  ////////////////////////////////////////////////////////////////////////////
  {
-  if (locking)
+  try
+  {
    unlock();
+  }
+  catch (const std::exception &e)
+  {
+   log(std::string("unlock error: ") + e.what());
+  }
 
   remove_from_queue(get_server().lock_waiters);
   remove_from_queue(get_server().pull_waiters);
@@ -132,7 +138,15 @@ namespace joedb
     get_server().locked = false;
     if (get_server().client.is_shared() && get_server().client_lock)
     {
-     get_server().client_lock->unlock();
+     try
+     {
+      get_server().client_lock->unlock();
+     }
+     catch (...)
+     {
+      get_server().client_lock.reset();
+      throw;
+     }
      get_server().client_lock.reset();
     }
    }
@@ -164,7 +178,14 @@ namespace joedb
        push_status = 't';
       }
 
-      unlock();
+      try
+      {
+       unlock();
+      }
+      catch (const std::exception &e)
+      {
+       log(std::string("unlock error: ") + e.what());
+      }
      }
     }
    );
-- 
2.43.0


From b499d42099991d11382e17f8fb785186f22ae757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 42/43] fix: a hard checkpoint must not forget the data that a
 server received

---
 src/joedb/journal/Writable_Journal.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 5ac5761..0e7d018 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -3,6 +3,8 @@
 #include "joedb/error/Exception.h"
 #include "joedb/error/Destructor_Logger.h"
 
+#include <algorithm>
+
 namespace joedb
 {
  /////////////////////////////////////////////////////////////////////////////
@@ -211,7 +213,11 @@ namespace joedb
  void Writable_Journal::hard_checkpoint()
  /////////////////////////////////////////////////////////////////////////////
  {
-  hard_checkpoint_at(file_buffer.get_position());
+  // Data of a pull or a push is after the current position
+  hard_checkpoint_at
+  (
+   std::max(file_buffer.get_position(), checkpoint_position)
+  );
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d67a52ba896baddc26b5f9c2b64e3fb88a9829d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:51 +0000
Subject: [PATCH 43/43] fix: an exclusive server that pushes at start must keep
 its connection locked

---
 src/joedb/concurrency/Server.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index ffd04de..6cb3d00 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -577,9 +577,13 @@ namespace joedb
   {
    if (writable_journal_client)
    {
-    if (!client.is_shared())
+    if (client.is_shared())
+     writable_journal_client->push_if_ahead();
+    else
+    {
      client_lock.emplace(*writable_journal_client);
-    writable_journal_client->push_if_ahead();
+     client_lock->push_if_ahead();
+    }
    }
   }
   catch (...)
-- 
2.43.0

